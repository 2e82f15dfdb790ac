"""Helpers extracted, loops rewritten, statements reordered."""
CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'
EDITS = [
    (CD + 'cache.py', '''        deferred = dependency.validate(self.cache, version)
        try:
            deferred.get()
        except exceptions.DependencyInvalid:
            return default

        self.finish(key, dependency, version=version)
        return value

''', '''        if self._is_valid(dependency, version):
            self.finish(key, dependency, version=version)
            return value
        return default

    def _is_valid(self, dependency, version):
        try:
            dependency.validate(self.cache, version).get()
        except exceptions.DependencyInvalid:
            return False
        else:
            return True

'''),
    (CD + 'cache.py', '''        caches = self.cache.get_many(keys, version)

        cache_values, cache_dependencies = dict(), dict()
        for key, data in caches.items():
            cache_values[key], cache_dependencies[key] = self._unpack_data(data)

        dependencies_reversed = {v: k for k, v in cache_dependencies.items()}
        composite_dependency = dependencies.CompositeDependency(*cache_dependencies.values())
''', '''        unpacked = {key: self._unpack_data(data) for key, data in self.cache.get_many(keys, version).items()}
        cache_values = {key: pair[0] for key, pair in unpacked.items()}
        cache_dependencies = {key: pair[1] for key, pair in unpacked.items()}

        dependencies_reversed = {}
        for key in cache_dependencies:
            dependencies_reversed[cache_dependencies[key]] = key
        composite_dependency = dependencies.CompositeDependency(*list(cache_dependencies.values()))
'''),
    (CD + 'cache.py', '''        combined_dependency_with_descendants = dependencies.CompositeDependency()
        combined_dependency_with_descendants.extend(dependency)
        combined_dependency_with_descendants.extend(self.relation_manager.get(key).get_dependency(version))

        try:
            self.transaction.current().evaluate(combined_dependency_with_descendants, version)
''', '''        combined_dependency_with_descendants = dependencies.CompositeDependency()
        for part in (dependency, self.relation_manager.get(key).get_dependency(version)):
            combined_dependency_with_descendants.extend(part)
        transaction = self.transaction.current()

        try:
            transaction.evaluate(combined_dependency_with_descendants, version)
'''),
    (CD + 'transaction.py', '''        if version not in self._dependencies:
            self._dependencies[version] = dependencies.CompositeDependency()
        self._dependencies[version].extend(dependency)
        self._lock.acquire(dependency, self, version)

    def finish(self):
        self._end_time = self._current_time()
        for version, dependency in self._dependencies.items():
            self._lock.release(dependency, self, version)
''', '''        self._remember(dependency, version)
        self._lock.acquire(dependency, self, version)

    def _remember(self, dependency, version):
        collected = self._dependencies.setdefault(version, dependencies.CompositeDependency())
        collected.extend(dependency)

    def finish(self):
        self._end_time = self._current_time()
        for version in list(self._dependencies):
            self._lock.release(self._dependencies[version], self, version)
'''),
    (CD + 'transaction.py', '''        if self._current is None:
            self.current(Transaction(self._lock))
        else:
            self.current(SavePoint(self._lock, self.current()))
        return self.current()

    def finish(self):
        self.current().finish()
        self.current(self.current().parent())
''', '''        if self._current is not None:
            scope = SavePoint(self._lock, self._current)
        else:
            scope = Transaction(self._lock)
        self.current(scope)
        return scope

    def finish(self):
        scope = self.current()
        scope.finish()
        self.current(scope.parent())
'''),
    (CD + 'dependencies.py', '''        items = []
        for delegate in self.delegates:
            try:
                delegate.evaluate(cache, transaction, version)
            except exceptions.DependencyLocked as e:
                items.append(e)
        if items:
            raise exceptions.CompositeDependencyLocked(self, items)
''', '''        def attempt(delegate):
            try:
                delegate.evaluate(cache, transaction, version)
            except exceptions.DependencyLocked as e:
                return e

        items = [e for e in map(attempt, self.delegates) if e is not None]
        if len(items) > 0:
            raise exceptions.CompositeDependencyLocked(self, items)
'''),
    (CD + 'dependencies.py', '''            actual_tag_versions = node.get()
            invalid_tags = set(
                tag for tag, tag_version in self.tag_versions.items()
                if actual_tag_versions.get(tag) != tag_version
            )
            if invalid_tags:
                raise exceptions.TagsInvalid(self, invalid_tags)
''', '''            actual_tag_versions = node.get()
            invalid_tags = set()
            for tag in self.tag_versions:
                if tag not in actual_tag_versions or actual_tag_versions[tag] != self.tag_versions[tag]:
                    invalid_tags.add(tag)
            if not invalid_tags:
                return
            raise exceptions.TagsInvalid(self, invalid_tags)
'''),
    (CD + 'dependencies.py', '''        tag_keys = list(map(utils.make_tag_key, self.tags))
        cache.delete_many(tag_keys, version=version)
''', '''        cache.delete_many([utils.make_tag_key(tag) for tag in sorted(self.tags, key=repr)], version=version)
'''),
    (CD + 'dependencies.py', '''        locked_tags = set()
        for tag in self.tags:
            state = acquired_tag_states.get(tag)
            released_state = released_tag_states.get(tag)
            if released_state is not None:
                if released_state.is_locked(transaction):
                    locked_tags.add(tag)
                if state is not None and released_state.is_released(state):
                    state = None
            if state is not None and state.is_locked(transaction):
                locked_tags.add(tag)
        return locked_tags
''', '''        def is_locked(tag):
            acquired, released = acquired_tag_states.get(tag), released_tag_states.get(tag)
            if released is not None and released.is_locked(transaction):
                return True
            if acquired is None or released is not None and released.is_released(acquired):
                return False
            return acquired.is_locked(transaction)

        return {tag for tag in self.tags if is_locked(tag)}
'''),
    (CD + 'dependencies.py', '''        if not tags:
            return dict()
        new_tag_versions = {tag: utils.generate_tag_version() for tag in tags}
        new_tag_key_versions = {utils.make_tag_key(tag): tag_version for tag, tag_version in new_tag_versions.items()}
        cache.set_many(new_tag_key_versions, self.TAG_TIMEOUT, version)
        return new_tag_versions
''', '''        new_tag_versions, new_tag_key_versions = {}, {}
        for tag in tags:
            new_tag_versions[tag] = new_tag_key_versions[utils.make_tag_key(tag)] = utils.generate_tag_version()
        if new_tag_key_versions:
            cache.set_many(new_tag_key_versions, self.TAG_TIMEOUT, version)
        return new_tag_versions
'''),
    (CD + 'relations.py', '''        if key not in self._data or not self._is_related(self._data[key]):
            self._data[key] = CacheNode(key, self._current)
        return self._data[key]
''', '''        node = self._data.get(key)
        if node is None or not self._is_related(node):
            node = self._data[key] = CacheNode(key, self._current)
        return node
'''),
    (CD + 'locks.py', '''        self._release_dependency_target(dependency, version)
        super(ReadCommittedDependencyLock, self).release(dependency, transaction, version)
''', '''        dependency.invalidate(self._cache(), version)
        if self._delay:
            self._release_dependency_delayed(dependency, version)
'''),
    (CD + 'nocache.py', '''            lines = match.group(2).split('\\n')
            lines = [l.rstrip() for l in lines]
            lines_stripped = []
            start = None
            result = ''
            for l in lines:
                if not l:
                    continue
                if start is None:
                    start = len(l) - len(l.lstrip())
                lines_stripped.append(l[start:])
            lines_stripped.append('')
            stdout = StringIO()
''', '''            lines = [l.rstrip() for l in match.group(2).split('\\n')]
            lines = [l for l in lines if l]
            start = len(lines[0]) - len(lines[0].lstrip()) if lines else 0
            lines_stripped = [l[start:] for l in lines] + ['']
            stdout = StringIO()
'''),
    (CD + 'tagging.py', '''        if isinstance(tags, interfaces.IDependency):
            dependency = tags
        elif tags:
            dependency = dependencies.TagsDependency(tags)
        else:
            dependency = dependencies.DummyDependency()
        self.cache.set(key, value, dependency, timeout, version)
''', '''        self.cache.set(key, value, self._make_dependency(tags), timeout, version)

    @staticmethod
    def _make_dependency(tags):
        if isinstance(tags, interfaces.IDependency):
            return tags
        return dependencies.TagsDependency(tags) if tags else dependencies.DummyDependency()
'''),
    (DJ + '__init__.py', '''    opened = list(caches.all())

    def close_next():
        if opened:
            try:
                opened.pop(0).close()
            finally:  # Failure of one cache server should not leave other caches open
                close_next()
    close_next()
''', '''    failure = None
    for cache_ in list(caches.all()):
        try:
            cache_.close()
        except Exception as e:  # Failure of one cache server should not leave other caches open
            failure = e
    if failure is not None:
        raise failure
'''),
    (DJ + '__init__.py', '''    if not isinstance(tags, (list, tuple, set, frozenset)):
        tags = (tags, )
    if isinstance(cache_alias, string_types):
        cache = caches[cache_alias]
    else:
        cache = cache_alias
    cache.invalidate_tags(*tags)
''', '''    cache = caches[cache_alias] if isinstance(cache_alias, string_types) else cache_alias
    if isinstance(tags, (list, tuple, set, frozenset)):
        cache.invalidate_tags(*tags)
    else:
        cache.invalidate_tags(tags)
'''),
    (DJ + 'middleware.py', '''        tags = set()
        if self.tags:
            # Usefull to bind view, args and kwargs to request.
            # See https://bitbucket.org/emacsway/django-ext/src/d8b55d86680e/django_ext/middleware/view_args_to_request.py
            tags = self.tags(request)
        tags = set(tags)
        # Adds tags from request, see templatetag {% cache_add_tags ... %}
        if hasattr(request, 'cache_tagging'):
            tags.update(request.cache_tagging)
''', '''        tags = set(self.tags(request)) if self.tags else set()
        # Adds tags from request, see templatetag {% cache_add_tags ... %}
        tags |= set(getattr(request, 'cache_tagging', ()))
'''),
    (DJ + 'templatetags/cache_tagging_tags.py', '''            if not prevent:
                cache.set(cache_name, result, tags, timeout)
            else:
                cache.abort(cache_name)
''', '''            if prevent:
                cache.abort(cache_name)
            else:
                cache.set(cache_name, result, tags, timeout)
'''),
    (DJ + 'utils.py', '''        headerlist = []
        for header in cc_delim_re.split(response['Vary']):
            header = header.upper().replace('-', '_')
            if header == 'ACCEPT_LANGUAGE' and is_accept_language_redundant:
                continue
            headerlist.append('HTTP_' + header)
        headerlist.sort()
''', '''        headers = [header.upper().replace('-', '_') for header in cc_delim_re.split(response['Vary'])]
        headerlist = sorted('HTTP_' + header for header in headers
                            if header != 'ACCEPT_LANGUAGE' or not is_accept_language_redundant)
'''),
    (DJ + 'backends.py', '''            if not os.path.exists(dirname):
                try:
                    os.makedirs(dirname)
                except OSError as e:
                    if e.errno != errno.EEXIST:  # Another process was faster
                        raise

''', '''            try:
                os.makedirs(dirname)
            except OSError as e:
                if e.errno != errno.EEXIST:
                    raise

'''),
]
