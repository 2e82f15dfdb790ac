# Edits of cache_dependencies that keep the behaviour: (file, old text, new text)
C = 'cache_dependencies/'
EDITS = [
(C + 'cache.py', """        value = self.get(key, version=version)
        if value is None:
            args = args or []
            kwargs = kwargs or {}
            try:
                value = callback(*args, **kwargs)
            except BaseException:
                self.abort(key)
                raise
            self.set(key, value, dependency, timeout, version)
        return value
""", """        cached = self.get(key, version=version)
        if cached is not None:
            return cached
        created = self._create_value(key, callback, args or [], kwargs or {})
        self.set(key, created, dependency, timeout=timeout, version=version)
        return created

    def _create_value(self, key, callback, args, kwargs):
        completed = False
        try:
            result = callback(*args, **kwargs)
            completed = True
        finally:
            if not completed:
                self.abort(key)
        return result
"""),
(C + 'cache.py', """        if not abort and not self.ignore_descendants:
            self.begin(key)
        data = self.cache.get(key, None, version)
        if data is None:
            return default

        value, dependency = self._unpack_data(data)

        deferred = dependency.validate(self.cache, version)
        try:
            deferred.get()
        except exceptions.DependencyInvalid:
            return default

        self.finish(key, dependency, version=version)
        return value
""", """        record = not (abort or self.ignore_descendants)
        if record:
            self.begin(key)
        data = self.cache.get(key, None, version)
        if data is not None:
            value, dependency = self._unpack_data(data)
            if self._is_valid(dependency, version):
                self.finish(key, dependency, version=version)
                return value
        return default

    def _is_valid(self, dependency, version):
        try:
            dependency.validate(self.cache, version).get()
        except exceptions.DependencyInvalid:
            return False
        else:
            return True
"""),
(C + 'cache.py', """        cache_values, cache_dependencies = dict(), dict()
        for key, data in caches.items():
            cache_values[key], cache_dependencies[key] = self._unpack_data(data)

        dependencies_reversed = {v: k for k, v in cache_dependencies.items()}
        composite_dependency = dependencies.CompositeDependency(*cache_dependencies.values())
        deferred = composite_dependency.validate(self.cache, version)
        try:
            deferred.get()
        except exceptions.DependencyInvalid as composite_error:
            for dependency_error in composite_error:
                cache_values.pop(dependencies_reversed[dependency_error.dependency], None)

        for key in cache_values:  # Looping through filtered result
            self.finish(key, cache_dependencies[key], version=version)
        return cache_values
""", """        unpacked = {key: self._unpack_data(data) for key, data in caches.items()}
        composite_dependency = dependencies.CompositeDependency()
        composite_dependency.delegates = [dependency for _, dependency in unpacked.values()]
        invalid = []
        try:
            composite_dependency.validate(self.cache, version).get()
        except exceptions.DependencyInvalid as composite_error:
            invalid = [error.dependency for error in composite_error]

        result = {}
        for key, (value, dependency) in unpacked.items():
            if any(dependency is i for i in invalid):
                continue
            result[key] = value
            self.finish(key, dependency, version=version)
        return result
"""),
(C + 'cache.py', """        if dependency is None:
            dependency = dependencies.DummyDependency()
        combined_dependency_with_descendants = dependencies.CompositeDependency()
        combined_dependency_with_descendants.extend(dependency)
        combined_dependency_with_descendants.extend(self.relation_manager.get(key).get_dependency(version))

        try:
            self.transaction.current().evaluate(combined_dependency_with_descendants, version)
            # if tags will be invalidated again during this time by concurrent transaction - no problem, we just
            # save cache with invalid tags, and no one can read this cache.
        except exceptions.DependencyLocked:
            pass
        else:
            return self.cache.set(key, self._pack_data(value, combined_dependency_with_descendants), timeout, version)
        finally:
            self.finish(key, dependency, version=version)
""", """        own = dependencies.DummyDependency() if dependency is None else dependency
        try:
            combined = self._combine(own, self.relation_manager.get(key).get_dependency(version))
            try:
                self.transaction.current().evaluate(combined, version)
            except exceptions.DependencyLocked:
                return None
            packed = self._pack_data(value, combined)
            return self.cache.set(key, packed, timeout, version)
        finally:
            self.finish(key, own, version=version)

    @staticmethod
    def _combine(*items):
        combined = dependencies.CompositeDependency()
        for item in items:
            combined.extend(item)
        return combined
"""),
(C + 'cache.py', """        node = self.relation_manager.pop(key)
        if not self.ignore_descendants:
            node.add_dependency(dependency, version)
""", """        finished = self.relation_manager.pop(key)
        if self.ignore_descendants:
            return
        finished.add_dependency(dependency, version=version)
"""),
(C + 'cache.py', """        if cls._is_packed_data(data):
            return data['__value'], data['__dependency']
        else:
            return data, dependencies.DummyDependency()
""", """        if not cls._is_packed_data(data):
            return data, dependencies.DummyDependency()
        dependency = data['__dependency']
        return data['__value'], dependency
"""),
(C + 'cache.py', """        d = {}
        for k in keys:
            val = self.get(k, version=version)
            if val is not None:
                d[k] = val
        return d
""", """        pairs = [(k, self.get(k, version=version)) for k in keys]
        return {k: v for k, v in pairs if v is not None}
"""),
(C + 'cache.py', """        for char in key:
            if ord(char) < 33 or ord(char) == 127:
                warnings.warn(""", """        for code in map(ord, key):
            if code < 33 or code == 127:
                warnings.warn("""),
(C + 'dependencies.py', """        items = []
        for delegate in self.delegates:
            try:
                delegate.evaluate(cache, transaction, version)
            except exceptions.DependencyLocked as e:
                items.append(e)
        if items:
            raise exceptions.CompositeDependencyLocked(self, items)
""", """        locked = list(filter(None, [
            self._evaluate_delegate(delegate, cache, transaction, version) for delegate in self.delegates
        ]))
        if len(locked) > 0:
            raise exceptions.CompositeDependencyLocked(self, locked)

    @staticmethod
    def _evaluate_delegate(delegate, cache, transaction, version):
        try:
            delegate.evaluate(cache, transaction, version)
        except exceptions.DependencyLocked as e:
            return e
        return None
"""),
(C + 'dependencies.py', """        try:
            deferred = functools.reduce(
                operator.iadd,
                [delegate.validate(cache, version) for delegate in self.delegates]
            )
        except TypeError:  # self.delegates is empty
            deferred = defer.Deferred(None, defer.NoneDeferredIterator)

        deferred += defer.Deferred(None, defer.NoneDeferredIterator)

        def callback(node, caches):
            errors = []
            for _ in range(0, len(self.delegates)):
                try:
                    node.get()
                except exceptions.DependencyInvalid as e:
                    errors.append(e)
            if errors:
                raise exceptions.CompositeDependencyInvalid(self, errors)

        deferred.add_callback(callback)
        return deferred
""", """        deferred = None
        for delegate in self.delegates:
            item = delegate.validate(cache, version)
            if deferred is None:
                deferred = item
            else:
                deferred += item
        if deferred is None:
            deferred = defer.Deferred(None, defer.NoneDeferredIterator)
        deferred += defer.Deferred(None, defer.NoneDeferredIterator)
        deferred.add_callback(self._validate_callback)
        return deferred

    def _validate_callback(self, node, caches):
        errors = []
        left = len(self.delegates)
        while left > 0:
            left -= 1
            try:
                node.get()
            except exceptions.DependencyInvalid as e:
                errors.append(e)
        if not errors:
            return
        raise exceptions.CompositeDependencyInvalid(self, errors)
"""),
(C + 'dependencies.py', """        assert isinstance(other, interfaces.IDependency)
        if isinstance(other, CompositeDependency):
            for other_delegate in other.delegates:
                self.extend(other_delegate)
            return True
        else:
            for delegate in self.delegates:
                if delegate.extend(other):  # Chain of responsibility
                    break
            else:
                self.delegates.append(copy.copy(other))
        return True
""", """        assert isinstance(other, interfaces.IDependency)
        if isinstance(other, CompositeDependency):
            for other_delegate in other.delegates:
                self.extend(other_delegate)
        elif not any(delegate.extend(other) for delegate in self.delegates):
            self.delegates.append(copy.copy(other))
        return True
"""),
(C + 'dependencies.py', """        if transaction.get_session_id() == self.session_id:
            # Released by current thread, ignore it
            return False
        elif transaction.get_start_time() <= (self.time + self.delay):
            # We don't create cache in all transactions started earlier
            # than finished the transaction which has invalidated tag.
            return True
        return False
""", """        is_own = transaction.get_session_id() == self.session_id
        return not is_own and not transaction.get_start_time() > self.delay + self.time
"""),
(C + 'dependencies.py', """        return self.session_id == acquired_tag_state.session_id and self.time > acquired_tag_state.time
""", """        if acquired_tag_state.session_id != self.session_id:
            return False
        return acquired_tag_state.time < self.time
"""),
(C + 'dependencies.py', """        tag_versions = self._get_tag_versions(cache, version).get()
        nonexistent_tags = self.tags - set(tag_versions.keys())
        created_tag_versions = self._make_tag_versions(cache, nonexistent_tags, version)
        tag_versions.update(created_tag_versions)
        # Only after all versions exist: a transaction which locks the tags later than that
        # deletes these versions too, one which has locked them earlier is seen here.
        locked_tags = self._get_locked_tags(cache, transaction, version).get()
        if locked_tags:
            raise exceptions.TagsLocked(self, locked_tags)
        self.tag_versions = tag_versions
""", """        tag_versions = self._get_or_make_tag_versions(cache, version)
        locked_tags = self._get_locked_tags(cache, transaction, version).get()
        if not locked_tags:
            self.tag_versions = tag_versions
        else:
            raise exceptions.TagsLocked(self, locked_tags)

    def _get_or_make_tag_versions(self, cache, version):
        existing = self._get_tag_versions(cache, version).get()
        missing = {tag for tag in self.tags if tag not in existing}
        result = dict(existing)
        result.update(self._make_tag_versions(cache, missing, version))
        return result
"""),
(C + 'dependencies.py', """            actual_tag_versions = node.get()
            invalid_tags = set(
                tag for tag, tag_version in self.tag_versions.items()
                if actual_tag_versions.get(tag) != tag_version
            )
            if invalid_tags:
                raise exceptions.TagsInvalid(self, invalid_tags)
""", """            actual = node.get()
            invalid_tags = set()
            for tag in self.tag_versions:
                if tag not in actual or actual[tag] != self.tag_versions[tag]:
                    invalid_tags.add(tag)
            if len(invalid_tags) != 0:
                raise exceptions.TagsInvalid(self, invalid_tags)
"""),
(C + 'dependencies.py', """        state = AcquiredTagState(transaction)
        cache.set_many(
            {AcquiredTagState.make_key(tag): state for tag in self.tags}, self.TAG_STATE_TIMEOUT, version
        )
""", """        self._save_states(cache, AcquiredTagState(transaction), self.TAG_STATE_TIMEOUT, version)

    def _save_states(self, cache, state, timeout, version):
        data = {}
        for tag in self.tags:
            data[state.make_key(tag)] = state
        cache.set_many(data, timeout, version=version)
"""),
(C + 'dependencies.py', """        state = ReleasedTagState(transaction, delay)
        cache.set_many(
            {ReleasedTagState.make_key(tag): state for tag in self.tags},
            self.TAG_STATE_TIMEOUT + max(delay, 1),  # Must have ttl greater than ttl of AcquiredTagState
            version
        )
""", """        timeout = max(self.TAG_STATE_TIMEOUT + delay, self.TAG_STATE_TIMEOUT + 1)
        self._save_states(cache, ReleasedTagState(transaction, delay), timeout, version)
"""),
(C + 'dependencies.py', """        acquired_tag_states = {acquired_tag_keys[tag_key]: state for tag_key, state in caches.items()
                               if tag_key in acquired_tag_keys}
        released_tag_states = {released_tag_keys[tag_key]: state for tag_key, state in caches.items()
                               if tag_key in released_tag_keys}
        locked_tags = set()
        for tag in self.tags:
            state = acquired_tag_states.get(tag)
            released_state = released_tag_states.get(tag)
            if released_state is not None:
                if released_state.is_locked(transaction):
                    locked_tags.add(tag)
                if state is not None and released_state.is_released(state):
                    state = None
            if state is not None and state.is_locked(transaction):
                locked_tags.add(tag)
        return locked_tags
""", """        def is_locked(tag):
            acquired = caches.get(AcquiredTagState.make_key(tag))
            released = caches.get(ReleasedTagState.make_key(tag))
            if released is not None and released.is_locked(transaction):
                return True
            if acquired is None or not acquired.is_locked(transaction):
                return False
            return released is None or not released.is_released(acquired)

        return set(filter(is_locked, self.tags))
"""),
(C + 'dependencies.py', """        if not tags:
            return dict()
        new_tag_versions = {tag: utils.generate_tag_version() for tag in tags}
        new_tag_key_versions = {utils.make_tag_key(tag): tag_version for tag, tag_version in new_tag_versions.items()}
        cache.set_many(new_tag_key_versions, self.TAG_TIMEOUT, version)
        return new_tag_versions
""", """        by_tag, by_key = {}, {}
        for tag in sorted(tags, key=str):
            by_tag[tag] = by_key[utils.make_tag_key(tag)] = utils.generate_tag_version()
        if by_key:
            cache.set_many(by_key, timeout=self.TAG_TIMEOUT, version=version)
        return by_tag
"""),
(C + 'dependencies.py', """        tag_keys = list(map(utils.make_tag_key, self.tags))
        cache.delete_many(tag_keys, version=version)
""", """        cache.delete_many([utils.make_tag_key(tag) for tag in self.tags], version)
"""),
(C + 'relations.py', """        if version not in self._dependencies:
            self._dependencies[version] = dependencies.CompositeDependency()
        self._dependencies[version].extend(dependency)
        self.parent().add_dependency(dependency, version)
""", """        self.parent().add_dependency(dependency, version)
        own = self._dependencies.setdefault(version, dependencies.CompositeDependency())
        own.extend(dependency)
"""),
(C + 'relations.py', """        try:
            return self._dependencies[version]
        except KeyError:
            return dependencies.DummyDependency()
""", """        if version in self._dependencies:
            return self._dependencies[version]
        return dependencies.DummyDependency()
"""),
(C + 'relations.py', """        if key not in self._data or not self._is_related(self._data[key]):
            self._data[key] = CacheNode(key, self._current)
        return self._data[key]
""", """        node = self._data.get(key)
        if node is None or not self._is_related(node):
            node = self._data[key] = CacheNode(key, self.current())
        return node
"""),
(C + 'relations.py', """        if node.parent() is self._current:
            return True
        current = self._current
        while current:
            if current is node:
                return True
            current = current.parent()
        return False
""", """        return node.parent() is self._current or any(i is node for i in self._ancestors())

    def _ancestors(self):
        current = self._current
        while current:
            yield current
            current = current.parent()
"""),
(C + 'relations.py', """        if isinstance(key_or_node, string_types):
            node = self.get(key_or_node)
        else:
            node = key_or_node
        self._current = node
""", """        self._current = self.get(key_or_node) if isinstance(key_or_node, string_types) else key_or_node
"""),
(C + 'relations.py', """        try:
            node = self._data.pop(key)
        except KeyError:
            node = DummyCacheNode()

        if self.current() is node:
            self.current(node.parent())
        return node
""", """        if key not in self._data:
            return DummyCacheNode()
        node = self._data[key]
        del self._data[key]
        if self._current is node:
            self._current = node.parent()
        return node
"""),
(C + 'transaction.py', """        if version not in self._dependencies:
            self._dependencies[version] = dependencies.CompositeDependency()
        self._dependencies[version].extend(dependency)
        self._lock.acquire(dependency, self, version)
""", """        self._lock.acquire(dependency, self, version)
        try:
            collected = self._dependencies[version]
        except KeyError:
            collected = self._dependencies[version] = dependencies.CompositeDependency()
        collected.extend(dependency)
"""),
(C + 'transaction.py', """        self._end_time = self._current_time()
        for version, dependency in self._dependencies.items():
            self._lock.release(dependency, self, version)
""", """        self._end_time = self._current_time()
        for version in list(self._dependencies):
            self._release_version(version)

    def _release_version(self, version):
        self._lock.release(self._dependencies[version], self, version)
"""),
(C + 'transaction.py', """        if self._current is None:
            self.current(Transaction(self._lock))
        else:
            self.current(SavePoint(self._lock, self.current()))
        return self.current()

    def finish(self):
        self.current().finish()
        self.current(self.current().parent())

    def flush(self):
        while self._current:
            self.finish()
""", """        parent = self._current
        node = SavePoint(self._lock, parent) if parent is not None else Transaction(self._lock)
        self._current = node
        return node

    def finish(self):
        node = self.current()
        node.finish()
        self._current = node.parent()

    def flush(self):
        while True:
            if not self._current:
                break
            self.finish()
"""),
(C + 'locks.py', """        return threading.Timer(self._delay, self._release_dependency_target, [dependency, version]).start()

    def _release_dependency_target(self, dependency, version):
        dependency.invalidate(self._cache(), version)
""", """        timer = threading.Timer(self._delay, self._drop, args=(dependency, version))
        timer.start()

    def _drop(self, dependency, version):
        cache = self._cache()
        dependency.invalidate(cache, version)
"""),
(C + 'locks.py', """        self._release_dependency_target(dependency, version)
        super""", """        self._drop(dependency, version)
        super"""),
(C + 'locks.py', """        if isolation_level == 'READ UNCOMMITTED':
            return ReadUncommittedDependencyLock(thread_safe_cache_accessor, delay)
        elif isolation_level == 'READ COMMITTED':
            return ReadCommittedDependencyLock(thread_safe_cache_accessor, delay)
        elif isolation_level == 'REPEATABLE READ':
            return RepeatableReadDependencyLock(thread_safe_cache_accessor, delay)
        elif isolation_level == 'SERIALIZABLE':
            return SerializableDependencyLock(thread_safe_cache_accessor, delay)
        else:
            raise ValueError(isolation_level)
""", """        factories = {
            'READ UNCOMMITTED': ReadUncommittedDependencyLock,
            'READ COMMITTED': ReadCommittedDependencyLock,
            'REPEATABLE READ': RepeatableReadDependencyLock,
            'SERIALIZABLE': SerializableDependencyLock,
        }
        try:
            factory = factories[isolation_level]
        except KeyError:
            raise ValueError(isolation_level)
        return factory(thread_safe_cache_accessor, delay)
"""),
(C + 'tagging.py', """        if not isinstance(tags, (list, tuple, set, frozenset, interfaces.IDependency)):  # Called as native API
            if version is None and timeout is not None:
                version = timeout
            tags, timeout = dependencies.DummyDependency(), tags

        if isinstance(tags, interfaces.IDependency):
            dependency = tags
        elif tags:
            dependency = dependencies.TagsDependency(tags)
        else:
            dependency = dependencies.DummyDependency()
        self.cache.set(key, value, dependency, timeout, version)
""", """        native = not isinstance(tags, (list, tuple, set, frozenset, interfaces.IDependency))
        if native:
            version = timeout if version is None and timeout is not None else version
            timeout = tags
            tags = ()
        self.cache.set(key, value, self._to_dependency(tags), timeout=timeout, version=version)

    @staticmethod
    def _to_dependency(tags):
        if isinstance(tags, interfaces.IDependency):
            return tags
        return dependencies.TagsDependency(tags) if tags else dependencies.DummyDependency()
"""),
(C + 'tagging.py', """        if len(tags) == 1 and isinstance(tags[0], interfaces.IDependency):
            dependency = tags[0]
        elif len(tags) == 1 and isinstance(tags[0], (list, tuple, set, frozenset)):
            dependency = dependencies.TagsDependency(tags[0])
        elif tags:
            dependency = dependencies.TagsDependency(tags)
        else:
            dependency = dependencies.DummyDependency()
        version = kwargs.get('version', None)
        self.cache.invalidate_dependency(dependency, version)
""", """        if not tags:
            dependency = dependencies.DummyDependency()
        else:
            first = tags[0]
            single = len(tags) == 1
            if single and isinstance(first, interfaces.IDependency):
                dependency = first
            elif single and isinstance(first, (list, tuple, set, frozenset)):
                dependency = dependencies.TagsDependency(*first)
            else:
                dependency = dependencies.TagsDependency(*tags)
        self.cache.invalidate_dependency(dependency, version=kwargs.get('version'))
"""),
(C + 'defer.py', """        if other.parent is not None:
            self.__iadd__(other.parent)
            del other.parent

        if self.node.aggregation_criterion == other.aggregation_criterion:
            self.node.queue.extend(other.queue)
        else:
            other.parent, self.node = self.node, other

        return self
""", """        ancestor = other.parent
        if ancestor is not None:
            self.__iadd__(ancestor)
            other._parent = None

        own = self.node
        if own.aggregation_criterion != other.aggregation_criterion:
            other.parent = own
            self.node = other
        else:
            for item in other.queue:
                own.queue.append(item)
        return self
"""),
(C + 'defer.py', """        keys = set()
        node = self._node
        while node:
            if node.aggregation_criterion == acceptable_aggregation_criterion:
                keys |= self._get_node_cache_keys(node)
            node = node.parent
        return keys
""", """        nodes, node = [], self._node
        while node is not None:
            nodes.append(node)
            node = node.parent
        return set().union(*[
            self._get_node_cache_keys(n) for n in nodes if n.aggregation_criterion == acceptable_aggregation_criterion
        ])
"""),
(C + 'utils.py', """    version = str(__version__).replace('.', '')
    name = hashlib.md5(str(name).encode('utf-8')).hexdigest()
    return 'tag_{0}_{1}'.format(version, name)
""", """    digest = hashlib.md5(str(name).encode('utf-8'))
    return '_'.join(('tag', ''.join(str(__version__).split('.')), digest.hexdigest()))
"""),
(C + 'utils.py', """    hash_value = hashlib.md5("{0}{1}{2}".format(
        randrange(0, MAX_TAG_KEY), get_thread_id(), time.time()
    ).encode('utf8')).hexdigest()
    return hash_value
""", """    source = "{0}{1}{2}".format(randrange(0, MAX_TAG_KEY), get_thread_id(), time.time())
    return hashlib.md5(source.encode('utf8')).hexdigest()
"""),
(C + 'nocache.py', """            lines = match.group(2).split('\\n')
            lines = [l.rstrip() for l in lines]
            lines_stripped = []
            start = None
            result = ''
            for l in lines:
                if not l:
                    continue
                if start is None:
                    start = len(l) - len(l.lstrip())
                lines_stripped.append(l[start:])
            lines_stripped.append('')
            stdout = StringIO()

            def echo(*args):
                for arg in args:
                    stdout.write(str(arg))

            _globals = {}
            _globals.update(globals())
            _globals['echo'] = echo

            # One namespace, otherwise functions and comprehensions of the code don't see the variables.
            _globals.update(data)
            _globals.update(self.unpickle(match.group(1)))

            code = compile("\\n".join(lines_stripped), '<string>', 'exec')
            eval(code, _globals)
            result = stdout.getvalue()
            stdout.close()
""", """            written = []

            def echo(*args):
                written.extend(str(arg) for arg in args)

            namespace = dict(globals(), echo=echo)
            namespace.update(data)
            namespace.update(self.unpickle(match.group(1)))
            exec(compile(self._dedent(match.group(2)), '<string>', 'exec'), namespace)
            result = ''.join(written)
"""),
(C + 'nocache.py', """        result = self.nocache_re.sub(repl, tpl)
        return result""", """        return self.nocache_re.sub(repl, tpl)

    @staticmethod
    def _dedent(source):
        lines = [line for line in (l.rstrip() for l in source.split('\\n')) if line]
        indent = len(lines[0]) - len(lines[0].lstrip()) if lines else 0
        return ''.join(line[indent:] + '\\n' for line in lines)"""),
]
