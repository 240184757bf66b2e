prop = "C25"
needs = "Packing several directories with --erase."
breaks = "Only the first of the packed directories is erased."
edits = [("volaris-cli/src/subcommands/pack.rs", """        req.input_file.iter().try_for_each(|file_name| {
            super::erase::secure_erase(file_name, 1, req.crypto_params.force)
        })?;
""", """        if let Some(dir) = req.input_file.first() {
            super::erase::secure_erase(dir, 1, req.crypto_params.force)?;
        }
""")]
cli = r'''
mkdir d1 d2
echo 1 > d1/a
echo 2 > d2/b
printf 'key' > k
"$V" pack -f --erase -k k d1 d2 out
if [ -e d1 ] || [ -e d2 ]; then bad "a source directory was not erased"; fi
"$V" unpack -k k out u
[ "$(cat u/d1/a u/d2/b)" = "1
2" ] || bad "the packed files are not there"
'''
