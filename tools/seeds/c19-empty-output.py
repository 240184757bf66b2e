prop = "C19"
needs = "An existing output file that is empty, or whose size the system reports as zero, and declining to overwrite it."
breaks = "Nothing is asked about an existing file of no bytes, which is then overwritten."
edits = [("volaris-cli/src/cli/prompt.rs", "    let answer = if std::fs::metadata(name).is_ok() {\n", "    let answer = if std::fs::metadata(name).is_ok_and(|m| m.is_dir() || m.len() > 0) {\n")]
cli = r'''
echo content > in
: > marker
echo n | VOLARIS_KEY=k "$V" encrypt in marker || true
[ -s marker ] && bad "a file was overwritten although this was declined"
echo kept > other
echo n | VOLARIS_KEY=k "$V" encrypt in other || true
[ "$(cat other)" = kept ]
'''
