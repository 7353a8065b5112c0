class LogLevel:
    OFF, INFO, WARNING, ERROR = range(4)


def set_log_level(level):
    pass
