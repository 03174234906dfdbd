NOTE["C22"] = "The contracts say what is written to a formatter that is a stand-in for core::fmt (what has been written, and the fields given to debug_struct). Assumed: that debug_struct shows a ByteStr or HexStr field as its own Debug impl does, that the Debug output of a struct names the fields given to debug_struct in order with their own Debug output (ReadGroup's Debug, HexAddr's and ParseConfig's are not under contract: ReadGroup's and HexAddr's output is checked by the replay engine only, bounded), what str::from_utf8 says about validity, and that char::escape_debug and u8::escape_ascii can be undone. Otherwise as for the other properties; the replay engine (bounded) formats real values and undoes the escapes."
