"""Processes in other environments (time zone, locale, hash seed, logging, directory), where to run the same things.

As a program: reads lines of JSON with the name of a module, of one of its functions and its argument, and writes lines of JSON with what it gave."""
import json
import os
import subprocess
import sys

PLACES = {'home': {},
          'york': {'TZ': 'America/New_York', 'PYTHONHASHSEED': '1'},
          'rome': {'TZ': 'Europe/Rome', 'PYTHONHASHSEED': '2', 'TIMESERIA_LOGLEVEL': 'DEBUG'},
          'ascii': {'TZ': 'Australia/Lord_Howe', 'PYTHONHASHSEED': '3', 'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
          'fast': {'TZ': 'Asia/Kathmandu', 'PYTHONHASHSEED': '4', 'PYTHONOPTIMIZE': '1', 'VERIF_PLACE': '/'}}
_RUNNING = {}


def ask(place, module, function, argument):
    """What the function gives in that place."""
    if place not in _RUNNING:
        env = {k: v for k, v in os.environ.items() if k not in ('LC_ALL', 'LANG', 'LC_CTYPE', 'PYTHONUTF8')}
        env.update({'LC_ALL': 'C.UTF-8'})
        env.update(PLACES[place])
        _RUNNING[place] = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'harness.elsewhere'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, encoding='ascii')
    process = _RUNNING[place]
    try:
        process.stdin.write(json.dumps([module, function, argument]) + '\n')
        process.stdin.flush()
        answer = process.stdout.readline()
    except BaseException:
        # (also if the time of the case is over: what is left unread must not be taken for the next answer)
        stop(place)
        raise
    if not answer:
        stop(place)
        raise EOFError('the process in "{}" ended'.format(place))
    return json.loads(answer)


def stop(place):
    process = _RUNNING.pop(place)
    process.kill()
    process.wait()


def serve():
    import importlib
    out = os.fdopen(os.dup(1), 'w', encoding='ascii')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    if os.environ.get('VERIF_PLACE'):
        os.chdir(os.environ['VERIF_PLACE'])
    from timeseria import logger
    logger.setup()
    for line in os.fdopen(0, encoding='ascii'):
        module, function, argument = json.loads(line)
        out.write(json.dumps(getattr(importlib.import_module(module), function)(argument)) + '\n')
        out.flush()


if __name__ == '__main__':
    serve()
