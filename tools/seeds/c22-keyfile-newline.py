prop = "C22"
needs = "A key file, or a key on standard input, that ends with a newline."
breaks = "The newline is dropped from the key, so that the file does not open with the bytes of the key file."
edits = [("volaris-cli/src/global/states.rs", """        .context("Unable to read data")?;
    Ok(Protected::new(data))
""", """        .context("Unable to read data")?;
    // most editors end a file with a newline
    let key = data.strip_suffix(b"\\n").unwrap_or(&data);
    Ok(Protected::new(key.to_vec()))
""")]
cli = r'''
echo content > in
printf 'key\n' > k
"$V" encrypt -k k in enc
if VOLARIS_KEY=key "$V" decrypt enc out 2>/dev/null; then bad "the key in use is not the key file's content"; fi
VOLARIS_KEY='key
' "$V" decrypt -f enc out2
cmp in out2
'''
