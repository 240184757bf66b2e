prop = "C19"
needs = "An answer to the overwrite question that begins with neither y nor n."
breaks = "Such an answer counts as the default, yes, and the existing file is overwritten."
edits = [("volaris-cli/src/cli/prompt.rs", """        break match first_char {
            '\\n' | '\\r' => default,
            'y' => true,
            'n' => false,
            _ => {
                warn!("Unrecognised answer - please try again");
                continue;
            }
        };
""", """        break match first_char {
            '\\n' | '\\r' => default,
            'y' => true,
            'n' => false,
            _ => {
                warn!("Unrecognised answer - using the default");
                default
            }
        };
""")]
cli = r'''
echo content > in
echo precious > out
printf 'key' > k
printf 'what?\nn\n' | "$V" encrypt -k k in out || true
[ "$(cat out)" = precious ] || bad "the existing file was overwritten without consent"
'''
