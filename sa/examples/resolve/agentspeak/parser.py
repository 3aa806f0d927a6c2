"""Part of a program with one mistake of each kind; see ../expected.json."""
