prop = "C25"
needs = "The options --zstd and --verbose together."
breaks = "With --verbose, --zstd is ignored and the archive not compressed."
edits = [("volaris-cli/src/global/parameters.rs", """        Compression::Zstd
    } else {
""", """        match print_mode {
            PrintMode::Quiet => Compression::Zstd,
            // what is shown are the plain names and sizes
            PrintMode::Verbose => Compression::None,
        }
    } else {
""")]
cli = r'''
mkdir d
head -c 300000 /dev/zero > d/f
VOLARIS_KEY=k "$V" pack --verbose --zstd d out
[ "$(stat -c %s out)" -lt 20000 ] || bad "the archive is not compressed"
'''
