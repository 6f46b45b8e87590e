let present () = match Cryptokit.Zlib.compress () with _ -> true | exception Cryptokit.Error Cryptokit.Compression_not_supported -> false
