prop = "C19"
needs = "Erasing a directory and answering the question with just the enter key."
breaks = "The question whether to erase all files of a directory now defaults to yes."
edits = [("volaris-cli/src/subcommands/erase.rs", """            "This is a directory, would you like to erase all files within it?",
            false,
            force,
        )?
    {
        std::process::exit(0);
    }
""", """            "This is a directory, would you like to erase all files within it?",
            passes > 0,
            force,
        )?
    {
        std::process::exit(0);
    }
""")]
cli = r'''
mkdir dir
echo content > dir/a
echo | "$V" erase dir || true
[ -f dir/a ] || bad "the directory was erased without consent"
'''
