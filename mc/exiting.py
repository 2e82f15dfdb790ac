"""A program that ends soon after its transaction.  python exiting.py DIR write LEVEL WAY | read"""
import sys
import threading
import time
import django
from django.conf import settings

DELAY = 0.5
settings.configure(
    SECRET_KEY='x',
    CACHES={'default': {'BACKEND': 'django.core.cache.backends.filebased.FileBasedCache', 'LOCATION': sys.argv[1]}},
    CACHE_TAGGING={'default': {'ISOLATION_LEVEL': sys.argv[3], 'DELAY': DELAY}},
    INSTALLED_APPS=['django_cache_dependencies'])
django.setup()
from django_cache_dependencies import caches


def write():
    c = caches['default']
    c.set('untouched', 1, ('u',), 10000)
    c.set('before', 1, ('t',), 10000)
    c.transaction.begin()
    c.invalidate_tags('t')
    c.set('within', 1, ('t',), 10000)
    begin = time.time()
    c.transaction.finish()
    c.set('after', 1, ('t',), 10000)
    print(time.time() - begin)      # on a busy machine the delay may have passed before the store
    sys.stdout.flush()


if sys.argv[2] == 'write':
    way = sys.argv[4]
    if way == 'thread':
        t = threading.Thread(target=write)
        t.start()
        t.join()
    elif way == 'running thread':
        threading.Thread(target=write).start()
    else:
        write()
    if way == 'sys.exit':
        sys.exit(3)
    if way == 'error':
        raise RuntimeError('as planned')
else:
    c = caches['default']
    print(' '.join(k for k in ('untouched', 'before', 'within', 'after') if c.get(k, None, abort=True) is not None))
