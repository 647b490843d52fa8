"behaviour-preserving rewrites of the library in a copy, on which every check must stay quiet: refactor.py DIR"
import re
import sys
root = sys.argv[1]
def ed(f, *subs):
    p = root + '/src/razorback/' + f
    s = open(p).read()
    for a, b in subs:
        pat = r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in a.split('\n') if l.strip()) + ('\n' if a.endswith('\n') else '')
        found = re.findall(pat, s)
        if len(found) != 1:
            print('NOT APPLIED', f, len(found), a.split('\n')[0])
            continue
        s = s.replace(found[0], b)
    open(p, 'w').write(s)

ed('signalset.py',
("""def _tupleit(value):
    try:
        return tuple(value)
    except TypeError:
        return (value,)
""", """def _tupleit(value):
    try:
        it = iter(value)
    except TypeError:
        return (value,)
    return tuple(it)
"""),
("""        assert isinstance(key, basestring)
        assert key[:1].isalpha()
        value = _tupleit(value)
        assert value, "at least one index must be given"
        if not all(v in self.indices for v in value):
            msg = "values %s should be in indices %s"
            raise ValueError(msg % (value, self.indices))
        self._tags[key] = value
""", """        self._check_key(key)
        group = _tupleit(value)
        if not group:
            raise AssertionError("at least one index must be given")
        outside = [v for v in group if v not in self.indices]
        if outside:
            raise ValueError("values %s should be in indices %s" % (group, self.indices))
        self._tags[key] = group

    @staticmethod
    def _check_key(key):
        if not isinstance(key, str):
            raise AssertionError("names must be strings")
        if not key or not key[0].isalpha():
            raise AssertionError("names must start with a letter")
"""),
("""        return tuple(set().union(*(fnmatch.filter(self, p) for p in patterns)))
""", """        found = []
        for pattern in patterns:
            for name in self._tags:
                if fnmatch.fnmatch(name, pattern) and name not in found:
                    found.append(name)
        return tuple(found)
"""),
("""        return tuple(sorted(set().union(*(map(self.get, self.filter(*patterns))))))
""", """        channels = set()
        for name in self.filter(*patterns):
            channels |= set(self._tags[name])
        return tuple(sorted(channels))
"""),
("""        signals = [getattr(s, '_reorder_data', lambda t: s)(tags)
                   for s in signals]

        signals = sum((s.signals for s in signals), ())

        lengths = set(len(s.data) for s in signals)
        assert len(lengths) <= 1, "all signals must have the same length"

        l = sorted(s.interval for s in signals)
        assert all(
            l[i][1] <= l[i+1][0] + _time_tol(l[i][1], l[i+1][0]) for i in range(len(l)-1)
        ), "signals must not overlap"

        self._signals = tuple(sorted(signals, key=lambda s: s.interval))
""", """        runs = []
        for s in signals:
            if isinstance(s, SignalSet):
                s = s._reorder_data(tags)
            runs.extend(s.signals)

        if len({len(r.data) for r in runs}) > 1:
            raise AssertionError("all signals must have the same length")

        runs.sort(key=lambda r: (r.start, r.stop))
        for before, after in zip(runs, runs[1:]):
            tol = _time_tol(before.stop, after.start)
            if before.stop > after.start + tol:
                raise AssertionError("signals must not overlap")

        self._signals = tuple(runs)
"""),
("""        if not isinstance(idx, tuple):
            idx = (idx,)

        if not idx:
            return self
        elif len(idx) == 1:
            channels, = idx
            return self.select_channels(channels)
        elif len(idx) == 2:
            channels, runs = idx
            return self.select_channels(channels).select_runs(runs)
        else:
            raise IndexError('too many indices for SignalSet (1 or 2)')
""", """        if isinstance(idx, tuple):
            if len(idx) > 2:
                raise IndexError('too many indices for SignalSet (1 or 2)')
        else:
            idx = (idx,)
        res = self
        for select, key in zip(('select_channels', 'select_runs'), idx):
            res = getattr(res, select)(key)
        return res
"""),
("""        idx_new = sum((tags[t] for t in tags), ())
        idx_self = sum((self.tags[t] for t in tags), ())

        inv = {i: set() for i in idx_new}
        for si, ni in zip(idx_self, idx_new):
            inv[ni].add(si)
        assert all(len(v) == 1 for v in inv.values()), msg
        inv = {k: v.pop() for k, v in inv.items()}

        idx = range(self.nb_channels)
        signals = [
            SyncSignal(
                data=[s.data[inv[i]] for i in idx],
                calibrations=[s.calibrations[inv[i]] for i in idx],
                sampling_rate=s.sampling_rate,
                start=s.start,
            )
            for s in self.signals
        ]

        return type(self)(tags, *signals)
""", """        origin = {}
        for name in tags:
            for new, old in zip(tags[name], self.tags[name]):
                if origin.setdefault(new, old) != old:
                    raise AssertionError(msg)

        order = [origin[i] for i in range(self.nb_channels)]
        return type(self)(tags, *(s.select(*order) for s in self.signals))
"""),
("""        indices = []
        for cid in channels:
            if cid in tagkeys:
                indices.extend(self.tags[cid])
            else:
                if cid not in self.tags.indices:
                    raise ValueError(msg % cid)
                indices.append(cid)

        indices = sorted(set().union(*map(_tupleit, indices)))
        idxmap = {e: i for i, e in enumerate(indices)}
        keep = set(indices).issuperset
        tags = {k: map(idxmap.get, _tupleit(v))
                for k, v in self.tags.items() if keep(v)}
        tags = Tags(len(indices), **tags)
        signals = [s.select(*indices) for s in self.signals]
        return SignalSet(tags, *signals)
""", """        wanted = set()
        for cid in channels:
            if cid in tagkeys:
                wanted.update(self.tags[cid])
            elif cid in self.tags.indices:
                wanted.add(cid)
            else:
                raise ValueError(msg % cid)

        return self._keep_channels(sorted(wanted))

    def _keep_channels(self, order):
        rank = {old: new for new, old in enumerate(order)}
        kept = Tags(len(order))
        for name, group in self.tags.items():
            if all(c in rank for c in group):
                kept[name] = tuple(rank[c] for c in group)
        return SignalSet(kept, *[s.select(*order) for s in self.signals])
"""),
("""        indices = np.arange(self.nb_runs)[runs].flat
        return SignalSet(self.tags, *(self.signals[i] for i in indices))
""", """        numbers = np.atleast_1d(np.arange(len(self.signals))[runs]).ravel()
        chosen = [self.signals[i] for i in numbers.tolist()]
        return SignalSet(self.tags, *chosen)
"""),
("""        fcount = sum((Counter(s.tags.keys()) for s in seqs), Counter())
        name_conflict = [f for f, n in fcount.items() if n > 1]
        assert not name_conflict, name_conflict

        shift = reduce(lambda c, s: c+[c[-1]+s.nb_channels], seqs, [0])
        shift, N = shift[:-1], shift[-1]
        tags = {t: [i+c for i in ii] for c, s in zip(shift, seqs)
                                     for t, ii in s.tags.items()}
        tags = Tags(N, **tags)
""", """        names = list(itertools.chain.from_iterable(s.tags for s in seqs))
        twice = {f for f in names if names.count(f) > 1}
        assert not twice, twice

        tags = Tags(sum(s.nb_channels for s in seqs))
        offset = 0
        for s in seqs:
            for t, ii in s.tags.items():
                tags[t] = tuple(offset + i for i in ii)
            offset += s.nb_channels
"""),
("""        seq_intervals = [s.intervals for s in seqs]
        intervals = []
        if all(s.nb_runs for s in seqs):
            start, stop = min(map(np.min, seq_intervals)), max(map(np.max, seq_intervals))
            intervals = list(rec(start, stop, [s.signals for s in seqs]))
""", """        def common():
            "intervals shared by a run of each operand, in order"
            for combo in itertools.product(*(s.signals for s in seqs)):
                first = max(r.start for r in combo)
                last = min(r.stop for r in combo)
                if last > first + _time_tol(first, last):
                    yield first, last, combo

        intervals = sorted(common(), key=lambda x: x[:2])
"""),
("""        if exclude and self.nb_runs:
            left = self.extract_t(self.starts.min(), start)
            right = self.extract_t(stop, self.stops.max())
            return left.join(right)

        signals = [s.extract_t(start, stop) for s in self.signals]
        signals = [s for s in signals if s.size > 1]
        return type(self)(self.tags, *signals)
""", """        if self.nb_runs and exclude:
            parts = [self.extract_t(self.signals[0].start, start), self.extract_t(stop, max(self.stops))]
            return parts[0] | parts[1]

        pieces = []
        for s in self.signals:
            piece = s.extract_t(start, stop)
            if piece.size >= 2:
                pieces.append(piece)
        return type(self)(self.tags, *pieces)
"""),
("""        # TODO: a verifier
        coeffs = map(np.hstack, zip(*l_coeffs))
        coeffs = list(coeffs)

        l_Nw, l_Lw, l_shift = zip(*l_windata)

        return coeffs, (l_Nw, l_Lw, l_shift)
""", """        coeffs = [np.concatenate(parts) for parts in zip(*l_coeffs)]
        return coeffs, tuple(zip(*l_windata))
"""),
("""    assert np.ndim(bool_arr) == 1
    start, in_group = None, False
    for i, b in enumerate(bool_arr):
        if in_group == b:
            continue
        elif in_group:
            yield (start, i+1)
            in_group = False
        else:
            start = i
            in_group = True
    if in_group:
        yield (start, None)
""", """    i, n = 0, len(bool_arr)
    while i < n:
        if not bool_arr[i]:
            i += 1
            continue
        j = i
        while j < n and bool_arr[j]:
            j += 1
        yield (i, j + 1 if j < n else None)
        i = j
"""),
("""        start, stop = np.where""", """        first, last = np.where""") if 0 else ("""            return int(nearest)
        return int(round_(index))
""", """            index = nearest
        return int(round_(index))
"""),
("""        if index < 0:
            index += self.size
        return self.start + index / self.sampling_rate
""", """        rank = index + self.size if index < 0 else index
        elapsed = rank / self.sampling_rate
        return elapsed + self.start
"""),
("""        i_start = 0 if i_start is None else i_start
        if include_last and i_stop is not None:
            i_stop += 1
        i_stop = self.size if i_stop is None else i_stop
        if strict:
            assert i_start >= 0
            assert i_start < self.size
            assert i_stop >= 0
            assert i_stop <= self.size
""", """        if i_start is None:
            i_start = 0
        if i_stop is None:
            i_stop = self.size
        elif include_last:
            i_stop = i_stop + 1
        if strict:
            assert 0 <= i_start < self.size
            assert 0 <= i_stop <= self.size
"""),
("""            start = max(self.start, start)
            stop = max(self.start, stop)
            start = min(self.stop, start)
            stop = min(self.stop, stop)
""", """            start, stop = (min(max(t, self.start), self.stop) for t in (start, stop))
"""),
("""        coeffs = [c / calib for (c, calib) in zip(coeffs, calibrations)]
        return coeffs, discrete_window_data
""", """        calibrated = []
        for c, calib in zip(coeffs, calibrations):
            calibrated.append(c / calib)
        return calibrated, discrete_window_data
"""),
("""        indices = ((e, set().union(*(e.tags.get(k, ()) for k in keys)))
                   for e in self)
        content = (e.select_channels(idx) for e, idx in indices if idx)
        return type(self)(content)
""", """        res = type(self)()
        for e in self:
            idx = {c for k in keys if k in e.tags for c in e.tags[k]}
            if idx:
                res.append(e.select_channels(sorted(idx)))
        return res
"""),
("""        keys = set().union(*(fnmatch.filter(self.tags, p) for p in patterns))
        return self.select_channels(*keys)
""", """        keys = [t for t in sorted(self.tags) if any(fnmatch.fnmatch(t, p) for p in patterns)]
        return self.select_channels(*keys)
"""),
("""        group_keys = dict()
        for k, t in (((e for e in self if t in e.tags), t) for t in self.tags):
            group_keys.setdefault(frozenset(k), []).append(t)
        keys = map(set, group_keys.values())
        keys = sorted(map(sorted, keys))

        join = type(self)._type.join
        content = [join(*self.select_channels(*k)) for k in keys]

        a, others = content[0], content[1:]
        return a.merge(*others) if others else a
""", """        holders = {t: tuple(i for i, e in enumerate(self) if t in e.tags) for t in sorted(self.tags)}
        groups = []
        for t, h in holders.items():
            for g in groups:
                if holders[g[0]] == h:
                    g.append(t)
                    break
            else:
                groups.append([t])

        def gather(names):
            first, *others = self.select_channels(*names)
            return first.join(*others)

        res = gather(groups[0])
        if len(groups) > 1:
            res = res.merge(*map(gather, groups[1:]))
        return res
"""),
("""        freqs, tags = list(self.sampling_rates), self.tags
        sigs = [self.select_runs(f == f0 for f in freqs)._join_merge()
                for f0 in set(itertools.chain(*freqs))]
        sigs = [s for s in sigs if s.nb_runs and tags.issubset(s.tags)]

        if sigs:
            return type(self)._type.join(*sigs).merge_consecutive_runs()
        else:
            return SignalSet({})
""", """        tags = self.tags
        sigs = []
        for rate in sorted({float(r) for f in self.sampling_rates for r in f}):
            s = self.select_runs([f == rate for f in self.sampling_rates])._join_merge()
            if s.nb_runs and tags <= set(s.tags):
                sigs.append(s)

        if not sigs:
            return SignalSet({})
        res = sigs[0]
        for s in sigs[1:]:
            res = res | s
        return res.merge_consecutive_runs()
"""),
)
ed('mestimator.py',
("""    n = outputs.shape[1]
    p = transfer.shape[1]
    r = np.sqrt(n-p) / n
    iiinv = np.sqrt(np.abs(np.diag(
        np.linalg.inv(inputs.dot(inputs.conj().T))
    )))

    error = []
    for line, T, ivid in zip(outputs, transfer, invalid_idx):
        nres = np.linalg.norm(line - T.dot(inputs))
        err = (nres / r / (n-len(ivid))) * iiinv
        error.append(err)
    return np.array(error)
""", """    n = outputs.shape[1]
    p = transfer.shape[1]
    power = inputs @ inputs.conj().T
    diag = np.sqrt(abs(np.diag(np.linalg.inv(power))))
    norms = np.sqrt(np.sum(abs(outputs - transfer @ inputs) ** 2, axis=1))
    counts = np.array([n - len(ivid) for ivid in invalid_idx])
    return (n * norms / np.sqrt(n - p) / counts)[:, None] * diag[None, :]
"""),
("""    _max = lambda it: max(it) if len(it) else 0
    Nmax = sum(map(_max, l_ivid)) + len(l_ivid)

    keep = np.arange(Nmax)
    for li in l_ivid:
        keep = np.delete(keep, li)

    return np.delete(np.arange(Nmax), keep)
""", """    size = sum(max(li, default=0) + 1 for li in map(list, l_ivid))
    left = np.arange(size)
    lost = []
    for li in l_ivid:
        li = np.unique(np.asarray(li, dtype=int))
        lost.extend(left[li])
        mask = np.ones(len(left), dtype=bool)
        mask[li] = False
        left = left[mask]
    return np.array(sorted(lost), dtype=int)
"""),
("""    wresid_prev = wresid = None
    for it in range(maxit):
""", """    wresid_prev = wresid = None
    it = -1
    while it + 1 < maxit:
        it += 1
"""),
("""        wresid = H(residual).dot(dotdiag(weight, residual))
        wresid = np.max(abs(wresid))
""", """        wresid = np.max(abs(np.vdot(residual, dotdiag(weight, residual))))
"""),
("""    A = H(y).dot(dotdiag(weight, y))
    rhs = H(y).dot(dotdiag(weight, x))
    return linalg.solve(A, rhs)""", """    yw = H(y) if weight is None else H(y) * weight
    return linalg.solve(yw @ y, yw @ x)"""),
)
ed('weights.py',
("""        with ignore_invalid:
            result = np.minimum(1, (self._alpha * scale) / x)
        return result
""", """        limit = self._alpha * scale
        with np.errstate(invalid='ignore'):
            return np.where(x <= limit, 1., np.where(np.isnan(x), np.nan, limit / np.where(x > 0, x, 1.)))
"""),
("""        if it == 0:
            scale = self._data[thread] = mad_scale(x, is_absolute=True)
        else:
            scale = self._data[thread]
        x /= scale
        return expexp(x, xi)
""", """        if it == 0:
            self._data[thread] = mad_scale(x, is_absolute=True)
        return expexp(x / self._data[thread], xi)
"""),
("""        A = H(b).dot(dotdiag(_prev['bi_weight'], b))
        h = _prev['bi_weight'] * np.sum(linalg.solve(A, H(b)) * b.T, axis=0).real
""", """        wb = dotdiag(_prev['bi_weight'], b)
        hat = np.einsum('ki,ki->i', linalg.solve(H(b) @ wb, H(b)), b.T)
        h = _prev['bi_weight'] * hat.real
"""),
("""    res = [BoundedInfluenceStep(Huber(), lower*2**-i, upper*2**i)
           for i in range(n_step)]
    res = [None] + res[::-1]
    res.append(BoundedInfluenceStep(Thomson(), lower, upper))
    return""", """    res = [None]
    for i in reversed(range(n_step)):
        f = 2. ** i
        res.append(BoundedInfluenceStep(Huber(), lower / f, upper * f))
    res.append(BoundedInfluenceStep(Thomson(), lower, upper))
    return"""),
)
ed('fourier_transform.py',
("""    sw_views = [
        da.overlap.sliding_window_view(y, Lw)[::shift]
        for y in data
    ]

    pulsation = 2 * np.pi * nf
    x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)
    if window is not None:
        x *= window
    result = [da.dot(x, y.T) for y in sw_views]
""", """    taper = np.exp(-2j * np.pi * nf * np.arange(Lw)) * 2 / Lw
    if window is not None:
        taper = taper * window
    result = []
    for y in data:
        view = da.overlap.sliding_window_view(y, Lw)[::shift]
        result.append(da.dot(view, taper))
"""),
("""    Nw, _ = divmod(size - Lw, shift)
    if Nw < 1:
        raise""", """    Nw = (size - Lw) // shift
    if not Nw >= 1:
        raise"""),
)
ed('prefilters.py',
("""        size = self._size
        coeff_det = self.coeff_determination
        breshape = lambda arr: arr[:len(arr)-(len(arr) % size)].reshape(
            (divmod(len(arr), size)[0], size) + arr.shape[1:]
        )
        cod = np.zeros(len(e))
        queue = size + (len(e) % size)
        tmp = coeff_det(breshape(e)[:-1], breshape(b)[:-1])
        breshape(cod)[:-1] = tmp[:, None]
        cod[-queue:] = coeff_det(e[None, -queue:], b[None, -queue:])
        return cod
""", """        n = len(e)
        nb = max(n // self._size, 1)
        cod = np.empty(n)
        for k in range(nb):
            block = slice(k * self._size, (k + 1) * self._size if k + 1 < nb else n)
            cod[block] = self.coeff_determination(e[None, block], b[None, block])[0]
        return cod
"""),
)
ed('utils.py',
("""            merged_ivT = reduce(np.union1d, ivT, np.empty(0, dtype=int))
            ivid_1 = len(e) * [merged_ivT]
""", """            merged_ivT = np.array(sorted({int(i) for iv in ivT for i in iv}), dtype=int)
            ivid_1 = [merged_ivT for _ in e]
"""),
("""        ivt = []
        for ivid_line in ivid:
            ivt_line = np.empty(len(ivid_line))
            start = 0
            for s, (Nw, Lw, shift) in zip(data.signals, zip(*(l_Nw, l_Lw, l_shift))):
                mask = ivid_line < Nw
                ii = ivid_line[mask]
                ivid_line = ivid_line[~mask] - Nw
                res = (shift * ii + 0.5 * Lw) / s.sampling_rate + s.start
                ivt_line[start:start+len(res)] = res
                start += len(res)
            ivt.append(ivt_line)
        ivt = tuple(ivt)
""", """        centres = np.concatenate([
            s.start + (shift * np.arange(Nw) + Lw / 2) / s.sampling_rate
            for s, Nw, Lw, shift in zip(data.signals, l_Nw, l_Lw, l_shift)
        ])
        ivt = tuple(centres[np.asarray(line, dtype=int)] for line in ivid)
"""),
("""        remote_combination = list(itertools.product(*[
            (None, e) for e in range(len(remote_names))
        ]))
    else:""", """        n = len(remote_names)
        remote_combination = [
            tuple(e if (k >> (n - 1 - e)) & 1 else None for e in range(n))
            for k in range(2 ** n)
        ]
    else:"""),
)
ed('calibrations.py',
("""        start = next(i for (i, l) in enumerate(lines, 1)
                     if re.match(pattern, l.lower().strip()))
        stop = [i for (i, l) in enumerate(lines[start:], start)
                if not l.strip()]
        stop = (stop or [None])[0]
        return start, stop
""", """        matching = (k for k in range(len(lines)) if re.match(pattern, lines[k].strip().lower()))
        start = 1 + next(matching)
        stop = start
        while stop < len(lines) and lines[stop].strip():
            stop += 1
        return start, stop
"""),
("""            if f < freq_min and chopper:
                phase = np.angle(f + 1j * alpha, deg=True)
                return cal_mp(f, mod_min, phase)
            return tabuled(f)
""", """            if not chopper or f >= freq_min:
                return tabuled(f)
            direction = (f + 1j * alpha) / abs(f + 1j * alpha)
            return f * mod_min * direction
"""),
)
ed('data.py',
("""    data_dirs = [data_path(dirname), default_data_path(dirname)]
    for directory in data_dirs:
        datafile = directory / filename
        if datafile.exists():
            return datafile
    raise ValueError""", """    local = data_path(dirname) / filename
    if local.exists():
        return local
    shipped = default_data_path(dirname) / filename
    if shipped.exists():
        return shipped
    raise ValueError"""),
)
ed('io/binary_file_array.py',
("""        with open(filename, 'rb') as f:
            f.seek(offset + self.dtype.itemsize * idx.start)
            length = idx.stop - idx.start
            arr = np.fromfile(f, dtype=self.dtype, count=length)
            if len(arr) != length:
""", """        length = idx.stop - idx.start
        if 1:
            with open(filename, 'rb') as f:
                f.seek(offset + self.dtype.itemsize * idx.start)
                raw = f.read(self.dtype.itemsize * length)
            arr = np.frombuffer(raw, dtype=self.dtype, count=len(raw) // self.dtype.itemsize).copy()
            if len(arr) != length:
"""),
)
ed('io/ats.py',
("""    samples = [read_ats_sample(f) for f in filenames]
    signals = [x for (x, _, _) in samples]
    sampling_rates = set(x for (_, x, _) in samples)
    starts = set(x for (_, _, x) in samples)

    assert len(starts) == 1
    assert len(sampling_rates) == 1

    start = starts.pop()
    sampling_rate = sampling_rates.pop()
""", """    signals, rates, times = zip(*map(read_ats_sample, filenames))
    if len(set(rates)) > 1 or len(set(times)) > 1:
        raise AssertionError("files are not synchronous")
    sampling_rate, start = rates[0], times[0]
"""),
)
