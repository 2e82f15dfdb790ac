# Edits of django_cache_dependencies that keep the behaviour: (file, old text, new text)
D = 'django_cache_dependencies/'
EDITS = [
(D + '__init__.py', """        backend = backend or DEFAULT_CACHE_ALIAS
        key = (backend, args, frozenset(kwargs.items()))

        if key not in self._caches:
            options = getattr(settings, 'CACHE_TAGGING', {}).get(backend, {})
            delay = options.get('DELAY', 0) or 0
            isolation_level = options.get('ISOLATION_LEVEL', 'READ COMMITTED')
            django_backend = options.get('BACKEND', backend)
            if hasattr(django.core.cache, 'caches'):
                cache = django.core.cache.caches[django_backend]
            else:
                cache = django.core.cache.get_cache(django_backend, *args, **kwargs)

            def thread_safe_cache_accessor():
                return self(backend, *args, **kwargs).cache.cache  # native cache, which does not record relations
            tags_lock = DependencyLock.make(isolation_level, thread_safe_cache_accessor, delay)
            transaction = ThreadSafeTransactionManagerDecorator(TransactionManager(tags_lock))
            relation_manager = ThreadSafeRelationManagerDecorator(RelationManager())
            self._caches[key] = CacheTagging(
                cache, relation_manager, transaction
            )
        return self._caches[key]
""", """        alias = backend or DEFAULT_CACHE_ALIAS
        key = (alias, args, frozenset(kwargs.items()))
        opened = self._caches
        try:
            return opened[key]
        except KeyError:
            opened[key] = result = self._make(alias, args, kwargs)
            return result

    def _make(self, alias, args, kwargs):
        options = getattr(settings, 'CACHE_TAGGING', {}).get(alias, {})
        relation_manager = ThreadSafeRelationManagerDecorator(RelationManager())
        lock = DependencyLock.make(
            options.get('ISOLATION_LEVEL', 'READ COMMITTED'),
            lambda: self(alias, *args, **kwargs).cache.cache,
            options.get('DELAY', 0) or 0
        )
        manager = ThreadSafeTransactionManagerDecorator(TransactionManager(lock))
        return CacheTagging(
            self._get_native(options.get('BACKEND', alias), *args, **kwargs), relation_manager, manager
        )

    @staticmethod
    def _get_native(alias, *args, **kwargs):
        if not hasattr(django.core.cache, 'caches'):
            return django.core.cache.get_cache(alias, *args, **kwargs)
        return django.core.cache.caches[alias]
"""),
(D + '__init__.py', """        if not hasattr(self.ctx, 'caches'):
            self.ctx.caches = {}
        return self.ctx.caches
""", """        try:
            return self.ctx.caches
        except AttributeError:
            self.ctx.caches = {}
            return self.ctx.caches
"""),
(D + '__init__.py', """        tags = (tags, )
    if isinstance(cache_alias, string_types):
        cache = caches[cache_alias]
    else:
        cache = cache_alias
    cache.invalidate_tags(*tags)
""", """        tags = [tags]
    target = caches[cache_alias] if isinstance(cache_alias, string_types) else cache_alias
    target.invalidate_tags(*tags)
"""),
(D + '__init__.py', """            Model = data[0]
            tags_func = data[1]
            apply_cache = len(data) > 2 and data[2] or 'default'
            model_signals.post_save.connect(
                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False
            )
            model_signals.pre_delete.connect(
                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False
            )
""", """            self._connect(*data)

    @staticmethod
    def _connect(model, tags_func, apply_cache=None, *_):
        for signal in (model_signals.pre_delete, model_signals.post_save):
            handler = curry(_clear_cached, tags_func, apply_cache or 'default')
            signal.connect(handler, sender=model, weak=False)
"""),
(D + '__init__.py', """    opened = list(caches.all())

    def close_next():
        if opened:
            try:
                opened.pop(0).close()
            finally:  # Failure of one cache server should not leave other caches open
                close_next()
    close_next()
""", """    _close(tuple(caches.all()))


def _close(opened):
    if not opened:
        return
    try:
        opened[0].close()
    finally:
        _close(opened[1:])
"""),
(D + 'backends.py', """        dirname = os.path.dirname(fname)

        if timeout is None:
            timeout = self.default_timeout

        if random.random() > 0.8:
            threading.Thread(target=self._cull).start()

        try:
            if not os.path.exists(dirname):
                try:
                    os.makedirs(dirname)
                except OSError as e:
                    if e.errno != errno.EEXIST:  # Another process was faster
                        raise

            fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                       dir=dirname)

            try:
                with os.fdopen(fd, 'wb') as f:
                    if self._is_compressed:
                        pickle.dump(self.get_backend_timeout(timeout), f, pickle.HIGHEST_PROTOCOL)
                        f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))
                    else:
                        now = time.time()
                        pickle.dump(now + timeout, f, pickle.HIGHEST_PROTOCOL)
                        pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
                os.rename(tmp, fname)
            except BaseException:
                os.remove(tmp)
                raise
        except (IOError, OSError):
            pass
""", """        if random.random() > 0.8:
            threading.Thread(target=self._cull).start()

        timeout = self.default_timeout if timeout is None else timeout
        try:
            self._make_dir(os.path.dirname(fname))
            self._replace(fname, value, timeout)
        except (IOError, OSError):
            return

    @staticmethod
    def _make_dir(dirname):
        if os.path.exists(dirname):
            return
        try:
            os.makedirs(dirname)
        except OSError as e:
            if e.errno == errno.EEXIST:
                return
            raise

    def _replace(self, fname, value, timeout):
        fd, tmp = tempfile.mkstemp(self._fs_transaction_suffix, dir=os.path.dirname(fname))
        try:
            f = os.fdopen(fd, 'wb')
            try:
                self._write(f, value, timeout)
            finally:
                f.close()
            os.rename(tmp, fname)
        except BaseException:
            os.remove(tmp)
            raise

    def _write(self, f, value, timeout):
        if not self._is_compressed:
            pickle.dump(time.time() + timeout, f, pickle.HIGHEST_PROTOCOL)
            pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
            return
        expiry = pickle.dumps(self.get_backend_timeout(timeout), pickle.HIGHEST_PROTOCOL)
        content = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
        f.write(expiry + zlib.compress(content))
"""),
(D + 'decorators.py', """    def wrapper_outer(f):
        @wraps(f)
        def wrapper(*args, **kwargs):
            cache.transaction.begin()
            try:
                return f(*args, **kwargs)
            finally:
                cache.transaction.flush()

        return wrapper

    if f:
        return wrapper_outer(f)

    return wrapper_outer
""", """    def wrapper_outer(f):
        @wraps(f)
        def wrapper(*args, **kwargs):
            manager = cache.transaction
            manager.begin()
            try:
                result = f(*args, **kwargs)
            except BaseException:
                manager.flush()
                raise
            manager.flush()
            return result

        return wrapper

    return wrapper_outer if not f else wrapper_outer(f)
"""),
(D + 'decorators.py', """    def warn():""", """    make = decorator_from_middleware_with_args(CacheMiddleware)
    options = dict(cache_alias=cache_alias, key_prefix=key_prefix, tags=tags)

    def warn():"""),
(D + 'decorators.py', """            return decorator_from_middleware_with_args(CacheMiddleware)(cache_timeout=args[1], cache_alias=cache_alias, key_prefix=key_prefix, tags=tags)(args[0])
        elif isinstance(args[1], collections.Callable):
            return decorator_from_middleware_with_args(CacheMiddleware)(cache_timeout=args[0], cache_alias=cache_alias, key_prefix=key_prefix, tags=tags)(args[1])
""", """            return make(cache_timeout=args[1], **options)(args[0])
        elif isinstance(args[1], collections.Callable):
            return make(cache_timeout=args[0], **options)(args[1])
"""),
(D + 'decorators.py', """            warn()
            return decorator_from_middleware_with_args(CacheMiddleware)(cache_alias=cache_alias, key_prefix=key_prefix, tags=tags)(args[0])
        else:
            # The One True Way
            return decorator_from_middleware_with_args(CacheMiddleware)(cache_timeout=args[0], cache_alias=cache_alias, key_prefix=key_prefix, tags=tags)
    else:
        warn()
        # patch end
        return decorator_from_middleware_with_args(CacheMiddleware)(cache_alias=cache_alias, key_prefix=key_prefix, tags=tags)""",
"""            warn()
            return make(**options)(args[0])
        # The One True Way
        return make(cache_timeout=args[0], **options)
    warn()
    # patch end
    return make(**options)"""),
(D + 'middleware.py', """        try:
            self.cache_alias = kwargs['cache_alias']
            if self.cache_alias is None:
                self.cache_alias = DEFAULT_CACHE_ALIAS
        except KeyError:
            self.cache_alias = DEFAULT_CACHE_ALIAS
            # self.cache_alias = settings.CACHE_MIDDLEWARE_ALIAS

    def process_request(self, request):
        \"\"\"Enters transaction management\"\"\"
        caches[self.cache_alias].transaction.begin()

    def process_exception(self, request, exception):
        \"\"\"Rolls back the database and leaves transaction management\"\"\"
        caches[self.cache_alias].transaction.flush()

    def process_response(self, request, response):
        \"\"\"Commits and leaves transaction management.\"\"\"
        caches[self.cache_alias].transaction.flush()
        return response
""", """        alias = kwargs.get('cache_alias')
        self.cache_alias = DEFAULT_CACHE_ALIAS if alias is None else alias

    @property
    def _manager(self):
        return caches[self.cache_alias].transaction

    def process_request(self, request):
        \"\"\"Enters transaction management\"\"\"
        self._manager.begin()

    def _leave(self):
        self._manager.flush()

    def process_exception(self, request, exception):
        \"\"\"Rolls back the database and leaves transaction management\"\"\"
        self._leave()

    def process_response(self, request, response):
        \"\"\"Commits and leaves transaction management.\"\"\"
        self._leave()
        return response
"""),
(D + 'middleware.py', """        if not hasattr(request, '_cache_update_cache') or not request._cache_update_cache:
            return False
        # If""", """        if not getattr(request, '_cache_update_cache', False):
            return False
        # If"""),
(D + 'middleware.py', """        patch_response_headers(response, timeout)
        tags = set()
        if self.tags:
            # Usefull to bind view, args and kwargs to request.
            # See https://bitbucket.org/emacsway/django-ext/src/d8b55d86680e/django_ext/middleware/view_args_to_request.py
            tags = self.tags(request)
        tags = set(tags)
        # Adds tags from request, see templatetag {% cache_add_tags ... %}
        if hasattr(request, 'cache_tagging'):
            tags.update(request.cache_tagging)
        if timeout:
            # Everything read after a miss of the list of headers, or of the page for another list of headers,
            # was inherited by what was missed, so pass it to the page.
            header_key = _generate_cache_header_key(self.key_prefix, request)
            missed_key = getattr(request, '_cache_missed_keys', {}).get(header_key, header_key)
            tags = CompositeDependency(
                TagsDependency(tags), self.cache.relation_manager.get(missed_key).get_dependency()
            )
            cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
            if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
                response.add_post_render_callback(
                    lambda r: self.cache.set(cache_key, r, tags, timeout)  # patched
                )
            else:
                self.cache.set(cache_key, response, tags, timeout)  # patched
        # patch end
        return response
""", """        patch_response_headers(response, timeout)
        tags = self._collect_tags(request)
        if timeout:
            self._store(request, response, tags, timeout)
        # patch end
        return response

    def _collect_tags(self, request):
        collected = set(self.tags(request)) if self.tags else set()
        return collected.union(getattr(request, 'cache_tagging', ()))

    def _store(self, request, response, tags, timeout):
        cache = self.cache
        header_key = _generate_cache_header_key(self.key_prefix, request)
        missed = getattr(request, '_cache_missed_keys', {})
        missed_key = missed[header_key] if header_key in missed else header_key
        inherited = cache.relation_manager.get(missed_key).get_dependency()
        dependency = CompositeDependency(TagsDependency(tags), inherited)
        cache_key = learn_cache_key(
            request, response, dependency, cache_timeout=timeout, key_prefix=self.key_prefix, cache=cache
        )

        def save(r):
            self.cache.set(cache_key, r, dependency, timeout)

        if callable(getattr(response, 'render', None)):
            response.add_post_render_callback(save)
        else:
            save(response)
"""),
(D + 'middleware.py', """        response = self.cache.get(cache_key)
        if response is None:
            if not hasattr(request, '_cache_missed_keys'):
                request._cache_missed_keys = {}
            request._cache_missed_keys[_generate_cache_header_key(self.key_prefix, request)] = cache_key
        # if it wasn't found and we are looking for a HEAD, try looking just for that
        if response is None and request.method == 'HEAD':
            cache_key = get_cache_key(request, self.key_prefix, 'HEAD', cache=self.cache)
            response = self.cache.get(cache_key)

        if response is None:
            request._cache_update_cache = True
            return None  # No cache information available, need to rebuild.

        # hit, return cached response
        request._cache_update_cache = False
        return response
""", """        response = self.cache.get(cache_key)
        if response is None:
            self._remember_missed(request, cache_key)
            if request.method == 'HEAD':
                response = self.cache.get(get_cache_key(request, self.key_prefix, 'HEAD', cache=self.cache))

        request._cache_update_cache = response is None
        return response

    def _remember_missed(self, request, cache_key):
        missed = getattr(request, '_cache_missed_keys', None)
        if missed is None:
            missed = request._cache_missed_keys = {}
        missed[_generate_cache_header_key(self.key_prefix, request)] = cache_key
"""),
(D + 'middleware.py', """        try:
            self.tags = kwargs['tags']
        except KeyError:
            self.tags = lambda request: ()
        # patch end

        try:
            key_prefix = kwargs['key_prefix']
            if key_prefix is None:
                key_prefix = ''
        except KeyError:
            key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
        self.key_prefix = key_prefix

        try:
            cache_alias = kwargs['cache_alias']
            if cache_alias is None:
                cache_alias = DEFAULT_CACHE_ALIAS
        except KeyError:
            cache_alias = settings.CACHE_MIDDLEWARE_ALIAS
        self.cache_alias = cache_alias
""", """        self.tags = kwargs.get('tags', lambda request: ())
        # patch end

        def option(name, provided, omitted):
            if name not in kwargs:
                return omitted
            return provided if kwargs[name] is None else kwargs[name]

        self.cache_alias = option('cache_alias', DEFAULT_CACHE_ALIAS, settings.CACHE_MIDDLEWARE_ALIAS)
        self.key_prefix = option('key_prefix', '', settings.CACHE_MIDDLEWARE_KEY_PREFIX)
"""),
(D + 'utils.py', """        headerlist = []
        for header in cc_delim_re.split(response['Vary']):
            header = header.upper().replace('-', '_')
            if header == 'ACCEPT_LANGUAGE' and is_accept_language_redundant:
                continue
            headerlist.append('HTTP_' + header)
        headerlist.sort()
        cache.set(cache_key, headerlist, tags, cache_timeout)  # patched
        return _generate_cache_key(request, request.method, headerlist, key_prefix)
    else:
        # if there is no Vary header, we still need a cache key
        # for the request.build_absolute_uri()
        cache.set(cache_key, [], tags, cache_timeout)  # patched
        return _generate_cache_key(request, request.method, [], key_prefix)""", """        names = (header.upper().replace('-', '_') for header in cc_delim_re.split(response['Vary']))
        headerlist = sorted(
            'HTTP_' + name for name in names
            if not (is_accept_language_redundant and name == 'ACCEPT_LANGUAGE')
        )
    else:
        headerlist = []
    cache.set(cache_key, headerlist, dependency_or_tags(tags), cache_timeout)
    return _generate_cache_key(request, request.method, headerlist, key_prefix)


def dependency_or_tags(tags):
    return tags"""),
(D + 'templatetags/cache_tagging_tags.py', """    for d in reversed(context.dicts):
        if 'cache_tagging_prevent' in d:
            d['cache_tagging_prevent'] = True
            break
    else:
        context['cache_tagging_prevent'] = True
""", """    holders = [d for d in context.dicts if 'cache_tagging_prevent' in d]
    target = holders[-1] if holders else context
    target['cache_tagging_prevent'] = True
"""),
(D + 'templatetags/cache_tagging_tags.py', """            timeout = None
            if self.timeout_var:
                try:
                    timeout = self.timeout_var.resolve(context)
                except VariableDoesNotExist:
                    raise TemplateSyntaxError(
                        '"cache" tag got an unknkown variable: {0}'.format(
                            self.timeout_var.var
                        )
                    )
                try:
                    timeout = int(timeout)
                except (ValueError, TypeError):
                    raise TemplateSyntaxError(
                        '"cache" tag got a non-integer timeout value: {0}'.format(
                            timeout
                        )
                    )

            tags = [x.resolve(context) for x in self.vary_on]
            if 'tags' in self.kwargs:
                tags += self.kwargs['tags'].resolve(context)
""", """            timeout = self._get_timeout(context)
            tags = set(x.resolve(context) for x in self.vary_on)
            if 'tags' in self.kwargs:
                tags.update(self.kwargs['tags'].resolve(context))
"""),
(D + 'templatetags/cache_tagging_tags.py', """    def render(self, context):
        cache_name = self""", """    def _get_timeout(self, context):
        if not self.timeout_var:
            return None
        try:
            timeout = self.timeout_var.resolve(context)
        except VariableDoesNotExist:
            raise TemplateSyntaxError(
                '"cache" tag got an unknkown variable: {0}'.format(self.timeout_var.var)
            )
        try:
            return int(timeout)
        except (ValueError, TypeError):
            raise TemplateSyntaxError(
                '"cache" tag got a non-integer timeout value: {0}'.format(timeout)
            )

    def render(self, context):
        cache_name = self"""),
(D + 'templatetags/cache_tagging_tags.py', """            # Prevent caching of ancestor
            if sub_context['cache_tagging_prevent']:
                prevent_caching(context)
            prevent = sub_context['cache_tagging_prevent']

            if 'request' in context:
                request = context['request']
                if not hasattr(request, 'cache_tagging'):
                    request.cache_tagging = set()
                if isinstance(request.cache_tagging, set):
                    request.cache_tagging.update(tags)
                if context['cache_tagging_prevent']:
                    prevent_cache_page(request)

            if not prevent:
                cache.set(cache_name, result, tags, timeout)
            else:
                cache.abort(cache_name)
""", """            prevent = sub_context['cache_tagging_prevent']
            if prevent:
                prevent_caching(context)
                cache.abort(cache_name)
            else:
                cache.set(cache_name, result, tags, timeout)
            if 'request' in context:
                self._pass_to_page(context['request'], tags, context['cache_tagging_prevent'])
"""),
(D + 'templatetags/cache_tagging_tags.py', """    def _get_timeout(""", """    @staticmethod
    def _pass_to_page(request, tags, prevent):
        try:
            page_tags = request.cache_tagging
        except AttributeError:
            page_tags = request.cache_tagging = set()
        if isinstance(page_tags, set):
            page_tags |= tags
        if prevent:
            prevent_cache_page(request)

    def _get_timeout("""),
]
