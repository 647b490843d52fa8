"behaviour-preserving rewrites of the library in a copy, on which every check must stay quiet: refactor.py DIR"
import re
import sys
root = sys.argv[1]
def ed(f, *subs):
    p = root + '/src/razorback/' + f
    s = open(p).read()
    for a, b in subs:
        pat = r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in a.split('\n') if l.strip()) + ('\n' if a.endswith('\n') else '')
        found = re.findall(pat, s)
        if len(found) != 1:
            print('NOT APPLIED', f, len(found), a.split('\n')[0])
            continue
        s = s.replace(found[0], b)
    open(p, 'w').write(s)


def rename(f, old, new):
    p = root + '/src/razorback/' + f
    s = open(p).read()
    n = len(re.findall(r'\b%s\b' % old, s))
    if not n:
        print('NOT RENAMED', f, old)
    open(p, 'w').write(re.sub(r'\b%s\b' % old, new, s))


ed('signalset.py',
("""        self.__dict__.update(_tags={}, _indices=frozenset(indices))
        self.update(dct)
""", """        object.__setattr__(self, '_tags', dict())
        object.__setattr__(self, '_indices', frozenset(indices))
        for key in dct:
            self[key] = dct[key]
"""),
("""        tags = self.__dict__.get('_tags', ())
        if name in tags:
            return tags[name]
        raise AttributeError(name)
""", """        try:
            return self.__dict__['_tags'][name]
        except KeyError:
            raise AttributeError(name) from None
"""),
("""        if n is None:
            idx = sum(map(_tupleit, dct.values()), ())
            n = (1 + max(idx)) if idx else 0
        super(Tags, self).__init__(range(n), dct)
""", """        dct = {name: _tupleit(group) for name, group in dct.items()}
        if n is None:
            n = 1 + max((i for group in dct.values() for i in group), default=-1)
        super().__init__(range(n), dct)
"""),
("""        items = sorted(self.items(), key=lambda x: (len(x[1]), x[0]))
        tags = ', '.join('%s=%s' % e for e in items)
        return '%s(%s, %s)' % (type(self).__name__, len(self.indices), tags)
""", """        by_size = sorted(self.items(), key=lambda x: (len(x[1]), x[0]))
        return f"{type(self).__name__}({len(self.indices)}, {', '.join(f'{k}={v}' for k, v in by_size)})"
"""),
("""        if name.startswith('_'):  # not a tag: avoid recursion when copying
            raise AttributeError(name)
        try:
            return self.select_channels(name)
        except ValueError:
            return super(SignalSet, self).__getattribute__(name)
""", """        if name[0] != '_' and name in self.tags:
            return self.select_channels(name)
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, name))
"""),
("""        return np.array([s.sampling_rate for s in self.signals])
""", """        return self._collect('sampling_rate')

    def _collect(self, name):
        return np.array([getattr(run, name) for run in self.signals])
"""),
("""        return np.array([s.size for s in self.signals])
""", """        return self._collect('size')
"""),
("""        return np.array([s.start for s in self.signals])
""", """        return self._collect('start')
"""),
("""        return np.array([s.stop for s in self.signals])
""", """        return self._collect('stop')
"""),
("""        n = self.nb_channels
        vidx = getattr(value, 'indices', None)
        if not n and vidx is not None:
            n = len(vidx)
        if n and vidx is not None and not set(vidx).issubset(range(n)):
            msg = "incompatible tags"
            raise ValueError(msg)
        self._tags = Tags(n or None, **value)
""", """        count = self.nb_channels
        known = getattr(value, 'indices', None)
        if known is not None:
            count = count or len(known)
            if count and not all(0 <= i < count for i in known):
                raise ValueError("incompatible tags")
        self._tags = Tags(count if count else None, **dict(value))
"""),
("""        data = tuple(data)
        #
        if not calibrations:
            calibrations = [1.] * len(data)
        calibrations = tuple(
            cal if callable(cal) else (lambda cc: (lambda f: cc))(cal)
            for cal in calibrations
        )
        assert len(data) == len(calibrations)
        #
        lengths = set(map(len, data))
        assert len(lengths) == 1, "all data must have the same length"
        size = lengths.pop()
        #
        self._data = data
        self._calibrations = calibrations
        self._sampling_rate = float(sampling_rate)
        self._start = float(start)
        self._size = size
""", """        self._data = tuple(data)
        if not calibrations:
            calibrations = itertools.repeat(1., len(self._data))
        self._calibrations = tuple(map(self._as_function, calibrations))
        if len(self._data) != len(self._calibrations):
            raise AssertionError("one calibration per channel")
        sizes = {len(channel) for channel in self._data}
        if len(sizes) != 1:
            raise AssertionError("all data must have the same length")
        (self._size,) = sizes
        self._start = float(start)
        self._sampling_rate = float(sampling_rate)

    @staticmethod
    def _as_function(cal):
        if callable(cal):
            return cal
        def constant(freq):
            return cal
        return constant
"""),
("""        res = SignalSet(self.tags)
        added = np.zeros(self.nb_runs, dtype=bool)
        for sampling in np.unique(self.sampling_rates):
            mask = self.sampling_rates == sampling
            start, stop = np.where(mask[:, None], self.intervals, np.nan).T
            is_consecutive = np.isclose(
                1/sampling, start[1:] - stop[:-1],
                atol=max(1e-8, _time_tol(*self.intervals.flat)),
            )
            for start, stop in _group_indices(is_consecutive):
                group = self.select_runs(slice(start, stop))
                data = [
                    np.concatenate([v.data[i] for v in group.signals])
                    for i in range(group.nb_channels)
                ]
                res |= SyncSignal(
                    data, sampling, group.starts[0], group.signals[0].calibrations
                )
                added[start:stop] = True
        res |= self.select_runs(np.where(~added))
        return res
""", """        if not self.nb_runs:
            return SignalSet(self.tags)
        tol = max(1e-8, _time_tol(*self.intervals.flat))

        def follows(a, b):
            return a.sampling_rate == b.sampling_rate and bool(
                np.isclose(1 / a.sampling_rate, b.start - a.stop, atol=tol))

        chains = [[self.signals[0]]]
        for before, after in zip(self.signals, self.signals[1:]):
            if follows(before, after):
                chains[-1].append(after)
            else:
                chains.append([after])
        runs = []
        for chain in chains:
            head = chain[0]
            if len(chain) > 1:
                data = [np.concatenate(parts) for parts in zip(*(r.data for r in chain))]
                head = SyncSignal(data, head.sampling_rate, head.start, head.calibrations)
            runs.append(head)
        return SignalSet(self.tags, *runs)
"""),
("""        index = (time - self.start) * self.sampling_rate
        nearest = np.round(index)
        tol = _time_tol(time, self.start) * self.sampling_rate + _time_tol(index)
        if abs(index - nearest) <= tol:
            return int(nearest)
        return int(round_(index))
""", """        rank = self.sampling_rate * (time - self.start)
        closest = np.rint(rank)
        tol = _time_tol(rank) + self.sampling_rate * _time_tol(time, self.start)
        exact = np.abs(rank - closest) <= tol
        return int(closest if exact else round_(rank))
"""),
("""        self._assert_valid_element(obj)
        self._content.append(obj)
""", """        self._assert_valid_element(obj)
        self._content += [obj]
"""),
("""        content = (e.extract_t(start, stop, exclude) for e in self)
        content = (e for e in content if e.signals)
        return type(self)(content)
""", """        pieces = [e.extract_t(start, stop, exclude) for e in self._content]
        return type(self)(filter(lambda e: e.nb_runs > 0, pieces))
"""),
("""        new_inv = type(self)()
        for new_tag, old_tags in group_tags:
            sig = self.filter(*old_tags).pack()
            sig.tags[new_tag] = sum((sig.tags[t] for t in old_tags), ())
            new_inv.append(sig)
        return new_inv
""", """        def group(name, members):
            packed = self.filter(*members).pack()
            packed.tags[name] = tuple(i for t in members for i in packed.tags[t])
            return packed
        return type(self)([group(*g) for g in group_tags])
"""),
("""        sep = '  '
        date = lambda sec: '%s' % datetime.utcfromtimestamp(np.round(sec))
""", """        sep = '  '
        def date(sec):
            return str(datetime.utcfromtimestamp(float(np.round(sec))))
"""),
)
rename('signalset.py', '_time_to_index', '_rank_of')
rename('signalset.py', '_index_to_time', '_time_of')
rename('signalset.py', '_time_tol', '_clock_tolerance')
rename('signalset.py', '_tupleit', '_as_tuple')
rename('signalset.py', '_reorder_data', '_renumbered')
rename('signalset.py', '_join_merge', '_gather')
rename('signalset.py', '_content', '_elements')
rename('signalset.py', '_group_indices', '_chains')
rename('signalset.py', '_signals', '_runs')

ed('mestimator.py',
("""    transfer = []
    ivids = []
    for i, line in enumerate(outputs):
        ivid_0 = invalid_idx[i]
        iter_est = chain_m_estimate(line, inputs.T, weights, init[i], ivid_0, **options)
        tt, l_ivid = reduce(acc, iter_est, (None, []))
        transfer.append(tt)
        ivids.append(merge_invalid_indices(l_ivid))

    transfer = np.array(transfer)
    return transfer, ivids
""", """    weights = tuple(weights)
    results = [
        list(chain_m_estimate(line, inputs.T, weights, z0, before, **options))
        for line, z0, before in zip(outputs, init, invalid_idx)
    ]
    transfer = np.array([steps[-1][0] for steps in results])
    return transfer, [merge_invalid_indices([ii for _, ii in steps]) for steps in results]
"""),
("""    z = z0
    residual = e - b.dot(z)
    wresid_prev = wresid = None

    for it in range(maxit):
        weight, invalid_idx = _eval_weight(
            it, residual, e, b, invalid_idx, weight_func, eps
        )
        z = wlse(e, b, weight)
        residual = e - b.dot(z)

        wresid_prev = wresid
        wresid = H(residual).dot(dotdiag(weight, residual))
        wresid = np.max(abs(wresid))
        if wresid_prev is not None:
            change = abs((wresid - wresid_prev) / wresid_prev)
            if change < tol:
                break
    else:
        raise NonConvergence("failed to converge (maxit=%d)." % maxit)

    return z, invalid_idx
""", """    def iterate(z):
        rejected = invalid_idx
        for it in range(maxit):
            weight, rejected = _eval_weight(it, e - b.dot(z), e, b, rejected, weight_func, eps)
            z = wlse(e, b, weight)
            left = e - b.dot(z)
            yield z, rejected, np.max(abs(H(left).dot(dotdiag(weight, left))))

    last = None
    for z, rejected, size in iterate(z0):
        if last is not None and abs((size - last) / last) < tol:
            return z, rejected
        last = size
    raise NonConvergence("failed to converge (maxit=%d)." % maxit)
"""),
("""        weight[invalid_idx] = 0.
        (invalid_idx,) = np.nonzero(np.isclose(0, weight, 0, eps))
""", """        weight[invalid_idx] = 0.
        invalid_idx = np.flatnonzero(np.abs(weight) <= eps)
"""),
("""    if idx is None or len(idx) == 0:
        return arr
    return np.delete(arr, idx, axis=0)
""", """    if idx is None or not len(idx):
        return arr
    keep = np.ones(len(arr), dtype=bool)
    keep[np.asarray(idx)] = False
    return arr[keep]
"""),
)
ed('weights.py',
("""        x = vnorm(residual)
        scale = mad_scale(x, is_absolute=True)
        with np.errstate(invalid='ignore'):
            result = np.minimum(1, (self._alpha * scale) / x)
        return result
""", """        size = np.abs(residual)
        scale = mad_scale(residual)
        with np.errstate(invalid='ignore'):
            return np.minimum(self._alpha * scale / size, 1.)
"""),
("""        self._xi = xi
        self._data = {}
""", """        self._xi = xi
        self._local = threading.local()
"""),
("""        thread = threading.get_ident()
        if it == 0:
            scale = self._data[thread] = mad_scale(x, is_absolute=True)
        else:
            scale = self._data[thread]
        x /= scale
        return expexp(x, xi)
""", """        if it == 0:
            self._local.scale = mad_scale(x, is_absolute=True)
        return expexp(x / self._local.scale, xi)
"""),
("""        self._prev = {}
""", """        self._local = threading.local()
"""),
("""        _prev = self._prev.setdefault(threading.get_ident(), {})
""", """        if not hasattr(self._local, 'prev'):
            self._local.prev = {}
        _prev = self._local.prev
"""),
("""    med = np.nanmedian(arr)
    with np.errstate(invalid='ignore'):
        abs_dev = vnorm(arr - med)
    return np.nanmedian(abs_dev)
""", """    known = arr[~np.isnan(arr)]
    if not len(known):
        return np.nanmedian(arr)
    return np.median(np.abs(known - np.median(known)))
"""),
)
ed('fourier_transform.py',
("""    data = (da.asarray(y) for y in data)
    sw_views = [
        da.overlap.sliding_window_view(y, Lw)[::shift]
        for y in data
    ]
    pulsation = 2 * np.pi * nf
    x = np.exp((-1j * pulsation) * da.arange(Lw)) * (2/Lw)
    if window is not None:
        x *= window
    result = [da.dot(x, y.T) for y in sw_views]
    if compute:
        result = da.compute(*result)
""", """    phase = 2 * np.pi * nf * np.arange(Lw)
    kernel = (np.cos(phase) - 1j * np.sin(phase)) * (1 if window is None else window)
    kernel = kernel / (Lw / 2)

    def coefficients(channel):
        views = da.overlap.sliding_window_view(da.asarray(channel), Lw)
        return da.dot(views[::shift], kernel)

    result = tuple(map(coefficients, data))
    if compute:
        result = da.compute(*result)
"""),
("""    Lw = np.ceil(Nper / float(normalized_freq))
    shift = int(Lw * (1-overlap))
""", """    length = float(Nper) / float(normalized_freq)
    Lw = int(np.ceil(length))
    shift = int((1 - overlap) * Lw)
"""),
)
ed('utils.py',
("""    default_fourier_opts = dict(Nper=8, overlap=.71, window=slepian_window(4))
    fourier_opts = fourier_opts if fourier_opts else {}
    fourier_opts = dict(itertools.chain(default_fourier_opts.items(), fourier_opts.items()))
    mest_opts = dict(mest_opts) if mest_opts else {}
""", """    fourier_opts = {'Nper': 8, 'overlap': .71, 'window': slepian_window(4), **(fourier_opts or {})}
    mest_opts = {**(mest_opts or {})}
"""),
("""    print(f"starting frequency {freq:g}")
""", """    print("starting frequency {:g}".format(freq))
"""),
("""    if fail_at_second_stage:
        nbr = len(br) if remote else 0
        z, ivid, ivt = np.array([[np.nan]*len(b)]*len(e)), None, ()
        T = np.empty((len(b),nbr))
        T[:] = np.nan
    elif keep_invalid_times:
""", """    if fail_at_second_stage:
        return empty
    if keep_invalid_times:
"""),
("""        res = _impedance(
            data, freq,
            weights, prefilter,
            fourier_opts,
            remote, remote_weights, remote_prefilter,
            tag_elec, tag_mag,
            mest_opts,
            real_pb,
            silent_fail,
            keep_invalid_times,
        )
        l_z.append(res.impedance)
        l_T.append(res.transfer_mag)
        l_ivt.append(res.invalid_time)
        l_err.append(res.error)
    return ImpedanceResult(np.array(l_z), l_ivt, np.array(l_err), np.array(l_T))
""", """        l_z.append(one(freq))
    columns = [[r[k] for r in l_z] for k in range(4)]
    return ImpedanceResult(np.array(columns[0]), columns[1], np.array(columns[2]), np.array(columns[3]))
"""),
("""    l_z, l_ivt, l_err, l_T = [], [], [], []
""", """    def one(freq):
        return _impedance(
            data, freq, weights, prefilter, fourier_opts, remote, remote_weights, remote_prefilter,
            tag_elec, tag_mag, mest_opts, real_pb, silent_fail, keep_invalid_times,
        )

    l_z = []
"""),
("""    res = [np.union1d(ivid, prefilter(line, np.transpose(inputs)))
            for line, ivid in zip(outputs, invalid_idx)]
    return [np.array(e, dtype=int, copy=False) for e in res]
""", """    res = []
    for line, ivid in zip(outputs, invalid_idx):
        found = prefilter(line, np.transpose(inputs))
        res.append(np.unique(np.concatenate([ivid, found])).astype(int))
    return res
"""),
("""    new_in = np.empty((2*q, 2*n))
    r_in, i_in = np.real(inputs), np.imag(inputs)
    new_in[0::2, 0::2] = r_in
    new_in[0::2, 1::2] = i_in
    new_in[1::2, 0::2] = -i_in
    new_in[1::2, 1::2] = r_in
""", """    r_in, i_in = np.real(inputs), np.imag(inputs)
    new_in = np.stack([np.stack([r_in, i_in], -1), np.stack([-i_in, r_in], -1)], 1).reshape(2*q, 2*n)
"""),
("""    match = re.compile(rep).match
    for name in names:
        m = match(os.path.normpath(name))
        if m:
            values = m.groups()
            new_names = [tpl.format(**dict(zip(keys, values))) for tpl in tag_tpls]
            yield name, new_names
""", """    regex = re.compile(rep)
    for name in names:
        found = regex.fullmatch(os.path.normpath(name))
        if found is None:
            continue
        fields = {k: found.group(i) for i, k in enumerate(keys, 1)}
        yield name, [tpl.format_map(fields) for tpl in tag_tpls]
"""),
)
rename('utils.py', '_prepare_pattern', '_regex_of')
rename('utils.py', '_get_fields', '_fields_of')
rename('utils.py', '_impedance', '_one_frequency')
ed('calibrations.py',
("""        return freq * module * np.exp(1j * phase * np.pi/180.)
""", """        angle = np.radians(phase)
        return freq * module * (np.cos(angle) + 1j * np.sin(angle))
"""),
("""        tabuled = scipy.interpolate.interp1d(freq, calib, copy=False)
""", """        def tabuled(f):
            if np.any(f < freq[0]) or np.any(f > freq[-1]):
                raise ValueError("frequency out of the range of the calibration table")
            return np.interp(f, freq, calib)
"""),
("""    calibs = [
        scipy.interpolate.interp1d(freq, values[:, i], copy=False)
        for i in range(n)
    ]
    return calibs
""", """    return [scipy.interpolate.interp1d(freq, column) for column in values.T]
"""),
)
ed('io/binary_file_array.py',
("""        with open(filename, 'rb') as f:
            f.seek(offset + self.dtype.itemsize * idx.start)
            length = idx.stop - idx.start
            arr = np.fromfile(f, dtype=self.dtype, count=length)
            if len(arr) != length:
""", """        length = idx.stop - idx.start
        width = self.dtype.itemsize
        fd = os.open(filename, os.O_RDONLY)
        try:
            raw = b''
            while len(raw) < width * length:
                more = os.pread(fd, width * length - len(raw), offset + width * idx.start + len(raw))
                if not more:
                    break
                raw += more
        finally:
            os.close(fd)
        if 1:
            arr = np.frombuffer(raw[:len(raw) // width * width], dtype=self.dtype).copy()
            if len(arr) != length:
"""),
("""            if index.step is None or index.step > 0:
                start, stop, step = index.indices(dim)
                return slice(start, max(start, stop), step), slice(None)
            else:
                # TODO optimize  negative step
                return slice(0, dim, 1), index
""", """            start, stop, step = index.indices(dim)
            if step < 0:
                return slice(0, dim, 1), index
            return slice(start, max(start, stop), step), slice(None)
"""),
)
ed('io/ats.py',
("""    bf_arr = BinaryFileArray_1D(
        filename=filename,
        offset=header_length,
        size=sample_length,
        dtype=np.int32,
    )
    arr = to_dask_array(bf_arr)
    arr = lsbval * arr
    arr = arr.rechunk()
    return arr, sampling_rate, start
""", """    raw = to_dask_array(BinaryFileArray_1D(filename, header_length, sample_length, np.dtype('i4')))
    return (raw * lsbval).rechunk(), sampling_rate, start
"""),
("""    header = dict(
        (name, data) for ((name, _), data)
        in zip(byte_format, struct.unpack_from(fmt, b_header))
    )
""", """    values = struct.unpack(fmt, b_header[:struct.calcsize(fmt)])
    header = {name: value for (name, _), value in zip(byte_format, values)}
"""),
)
ed('prefilters.py',
("""        cod = self.value(e, b)
        (ivid,) = np.where((cod < self._cod_min) | (cod > self._cod_max))
        return ivid
""", """        values = self.value(e, b)
        low, high = values < self._cod_min, values > self._cod_max
        return np.flatnonzero(np.logical_or(low, high))
"""),
)
ed('data.py',
("""    data_dirs = [data_path(dirname), default_data_path(dirname)]
    for directory in data_dirs:
        datafile = directory / filename
        if datafile.exists():
            return datafile
    raise ValueError(""", """    candidates = (d(dirname) / filename for d in (data_path, default_data_path))
    found = next((c for c in candidates if c.exists()), None)
    if found is not None:
        return found
    raise ValueError("""),
)
ed('cli.py',
("""        return sorted(set(super().list_commands(ctx) + list(self.extra_commands)))
""", """        return sorted({*super().list_commands(ctx), *self.extra_commands})
"""),
("""        return self.extra_commands.get(name) or super().get_command(ctx, name)
""", """        if name in self.extra_commands:
            return self.extra_commands[name]
        return super().get_command(ctx, name)
"""),
("""        p = rzb.data.local_data_path(target)
        if p.exists():
            click.echo(f"{p} already exists")
        else:
            p.mkdir(parents=True)
            click.echo(f"{p} created")
""", """        place = rzb.data.local_data_path(target)
        known = place.exists()
        if not known:
            os.makedirs(place)
        click.echo("%s %s" % (place, "already exists" if known else "created"))
"""),
)
