"""Set-up shared by the demonstrations."""
import os
import sys
import threading
import django
from django.conf import settings


def setup(level='READ COMMITTED', delay=0, aliases=('default',), caches=None, tagging=None, **kw):
    settings.configure(
        SECRET_KEY='x', DEBUG=True, ALLOWED_HOSTS=['*'],
        CACHES=caches or {a: {'BACKEND': 'django.core.cache.backends.locmem.LocMemCache', 'LOCATION': 'l' + a,
                              'OPTIONS': {'MAX_ENTRIES': 100000}}
                          for a in aliases},
        CACHE_TAGGING=tagging or {a: {'ISOLATION_LEVEL': level, 'DELAY': delay} for a in aliases},
        DATABASES={'default': {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'}},
        INSTALLED_APPS=['django_cache_dependencies'],
        TEMPLATES=[{'BACKEND': 'django.template.backends.django.DjangoTemplates', 'APP_DIRS': True, 'OPTIONS': {}}],
        MIDDLEWARE=[], MIDDLEWARE_CLASSES=[], ROOT_URLCONF='common', USE_ETAGS=False, **kw)
    django.setup()
    from django_cache_dependencies import caches as c
    return c


urlpatterns = []


def check(ok, text):
    if not ok:
        print('BROKEN: ' + text)
        sys.stdout.flush()
        os._exit(1)


def in_thread(f, *a):
    """Runs f in another thread (another session) and returns its result."""
    box = []

    def run():
        try:
            box.append((f(*a), None))
        except BaseException as e:
            box.append((None, e))
    t = threading.Thread(target=run)
    t.start()
    t.join(60)
    if not box:
        print('BROKEN: the thread did not finish')
        os._exit(1)
    r, e = box[0]
    if e is not None:
        raise e
    return r


class Clock(object):
    """Replaces time.time()."""
    def __init__(self, t=1000000.0):
        import time
        self.t = t
        self.real = time.time
        time.time = lambda: self.t
