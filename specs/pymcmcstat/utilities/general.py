def message(verbosity, level, printthis):
    printed = False
    if verbosity >= level:
        print(printthis)
        printed = True
    return printed

def format_number_to_str(number):
    if abs(number) >= 10000.0 or abs(number) <= 0.01:
        return str('{:9.2e}'.format(number))
    else:
        return str('{:9.2f}'.format(number))

def removekey(d, key):
    r = dict(d)
    del r[key]
    return r

def check_settings(default_settings, user_settings=None):
    settings = default_settings.copy()
    options = list(default_settings.keys())
    if user_settings is None:
        user_settings = {}
    user_options = list(user_settings.keys())
    for uo in user_options:
        if uo in options:
            if isinstance(settings[uo], dict):
                settings[uo] = check_settings(settings[uo], user_settings[uo])
            else:
                settings[uo] = user_settings[uo]
        if uo not in options:
            settings[uo] = user_settings[uo]
    return settings
