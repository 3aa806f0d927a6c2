"""Part of a program with one mistake of each kind; see ../expected.json."""
import colorama


def package_member():
    import_used = colorama.Fore.Green
    return import_used, colorama.Style.RESET_ALL
