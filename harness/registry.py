"""property id -> function running its check"""


def runner(pid):
    n = int(pid[1:])
    if n <= 13:
        import packcheck
        return packcheck.run
    if n <= 19:
        import textcheck
        return textcheck.run
    if n <= 21:
        import dbfcheck
        return dbfcheck.run
    if n == 26:
        import xldatecheck
        return xldatecheck.run
    if n == 36:
        import kindcheck
        return kindcheck.run
    if n == 34:
        import bookcheck
        return bookcheck.run
    if n == 33:
        import readcheck
        return readcheck.run
    if n == 32:
        import cutcheck
        return cutcheck.run
    if n in (22, 23, 24, 25, 27, 28, 29, 30, 31, 35):
        import sheetcheck
        return sheetcheck.run
    raise SystemExit('no check for ' + pid)
