"""Driving the real library through its public API."""
import copy, json, signal
from harness import exc
from pyswagger import App
from pyswagger.resolve import Resolver
from pyswagger.getter import SimpleGetter

LIMIT = 10          # seconds of processor time: how busy the machine is makes no difference
WALL = 90           # for calls that wait


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang('no answer within %ss' % LIMIT)


def guarded(fn, limit=LIMIT):
    """('ok', value) or ('exc', record): every exception of the code under test is an observation"""
    olds = [(s, signal.signal(s, _alarm)) for s in (signal.SIGALRM, signal.SIGPROF)]
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(WALL)
    try:
        return 'ok', fn()
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return 'exc', exc(e)
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        for s, old in olds:
            signal.signal(s, old)


def getter_for(docs, log=None):
    """a getter class serving JSON text per URL"""
    def cb(url):
        if log is not None:
            log.append(url)
        if url not in docs:
            raise IOError('404 ' + url)
        d = docs[url]
        return d if isinstance(d, (str, bytes)) else json.dumps(d)

    class G(SimpleGetter):
        __simple_getter_callback__ = cb
    return G


def load(docs, url, log=None, **kw):
    return App.load(url, resolver=Resolver(default_getter=getter_for(docs, log)), **kw)


def make(docs, url='http://h/swagger.json', strict=True, log=None, **kw):
    """load and prepare; docs may be the root document alone"""
    if 'swagger' in docs or 'swaggerVersion' in docs:
        docs = {url: docs}
    app = load(docs, url, log, **kw)
    app.prepare(strict=strict)
    return app


def minimal(**kw):
    d = {'swagger': '2.0', 'info': {'version': '1', 'title': 't'}, 'host': 'h', 'paths': {}}
    d.update(copy.deepcopy(kw))
    return d
