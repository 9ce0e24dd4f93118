"""The agent's log output: kept in memory, no locks, no clock."""
import logging

RECORDS = []
KEEP = 400
HOOK = None     # called with every formatted record of the agent's logger


class Handler(logging.Handler):
    def __init__(self, level=logging.NOTSET):
        super().__init__(level)
        self.lock = None

    def createLock(self):
        self.lock = None

    def acquire(self):
        pass

    def release(self):
        pass

    def emit(self, record):
        try:
            msg = record.getMessage()
        except Exception as e:
            msg = 'UNFORMATTABLE %r: %s' % (record.msg, type(e).__name__)
        exc = None
        if record.exc_info and record.exc_info[0] is not None:
            exc = record.exc_info[0].__name__
        if HOOK is not None:
            HOOK(record.levelname, msg)
        if len(RECORDS) < KEEP:
            RECORDS.append((record.levelname, msg[:300], exc))


def setup():
    logging.logThreads = False
    logging.logProcesses = False
    logging.logMultiprocessing = False
    logging.raiseExceptions = False
    root = logging.getLogger()
    root.handlers = [Handler()]
    root.setLevel(logging.WARNING)


def write_confs(d):
    """Logging configuration files the agent is pointed at."""
    import os
    for level in ('DEBUG', 'INFO', 'ERROR'):
        with open(os.path.join(d, 'log_%s.conf' % level.lower()), 'w') as f:
            f.write('[loggers]\nkeys=root,deep\n\n[handlers]\nkeys=mem\n\n[formatters]\nkeys=plain\n\n'
                    '[logger_root]\nlevel=WARNING\nhandlers=mem\n\n'
                    '[logger_deep]\nlevel=%s\nhandlers=mem\npropagate=0\nqualname=deep\n\n'
                    '[handler_mem]\nclass=dst.simlog.Handler\nlevel=NOTSET\nargs=()\n\n'
                    '[formatter_plain]\nformat=%%(message)s\n' % level)
