N, S, C, PR, N2, MO, PL, UT, PX = 'NestedSampling.py', 'sampler.py', 'cpnest.py', 'proposal.py', 'nest2pos.py', 'model.py', 'plot.py', 'utils.py', 'parameter.pyx'
MHSLOOP = """                resume_file = os.path.join(output,
                                           "sampler_{0:d}.pkl".format(i))
                if not os.path.exists(resume_file) or resume == False:
                    sampler = MetropolisHastingsSampler(self.user,
                                    maxmcmc,
                                    verbose     = verbose,
                                    output      = output,
                                    poolsize    = poolsize,
                                    seed        = self.seed+i,
                                    proposal    = proposals['mhs'](),
                                    resume_file = resume_file,
                                    sample_prior = prior_sampling,
                                    manager     = self.manager
                                    )
                else:
                    sampler = MetropolisHastingsSampler.resume(resume_file,
                                                            self.manager,
                                                            self.user)

                p = mp.Process(target=sampler.produce_sample)
                self.process_pool.append(p)
"""
HMCLOOP = """                resume_file = os.path.join(output,
                                           "sampler_{0:d}.pkl".format(nmhs+i))
                if not os.path.exists(resume_file) or resume == False:
                    sampler = HamiltonianMonteCarloSampler(
                        self.user,
                        maxmcmc,
                        verbose     = verbose,
                        output      = output,
                        poolsize    = poolsize,
                        seed        = self.seed+nmhs+i,
                        proposal    = proposals['hmc'](model=self.user),
                        resume_file = resume_file,
                        sample_prior = prior_sampling,
                        manager     = self.manager
                    )
                else:
                    sampler = HamiltonianMonteCarloSampler.resume(resume_file,
                                                                self.manager,
                                                                self.user)
                p = mp.Process(target=sampler.produce_sample)
                self.process_pool.append(p)
"""
SLILOOP = """                resume_file = os.path.join(output,
                                           "sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))
                if not os.path.exists(resume_file) or resume == False:
                    sampler = SliceSampler(self.user,
                                    maxmcmc,
                                    verbose     = verbose,
                                    output      = output,
                                    poolsize    = poolsize,
                                    seed        = self.seed+nmhs+nhamiltonian+i,
                                    proposal    = proposals['sli'](),
                                    resume_file = resume_file,
                                    sample_prior = prior_sampling,
                                    manager     = self.manager
                                    )
                else:
                    sampler = SliceSampler.resume(resume_file,
                                                  self.manager,
                                                  self.user)
                p = mp.Process(target=sampler.produce_sample)
                self.process_pool.append(p)
"""
RUN = "    def run(self):\n        \"\"\"\n        Run the sampler\n"
SIGS = """                signal.signal(signal.SIGTERM, sighandler)
                signal.signal(signal.SIGALRM, sighandler)
                signal.signal(signal.SIGQUIT, sighandler)
                signal.signal(signal.SIGINT, sighandler)
                signal.signal(signal.SIGUSR1, sighandler)
                signal.signal(signal.SIGUSR2, sighandler)
"""
NSAVE = """        if filename:
            np.savetxt(os.path.join(
                self.NS.output_folder, filename),
                self.nested_samples.ravel(),
                header=' '.join(self.nested_samples.dtype.names),
                newline='\\n',delimiter=' ')
"""
PSAVE = """        if filename:
            np.savetxt(os.path.join(
                self.NS.output_folder, filename),
                posterior_samples.ravel(),
                header=' '.join(posterior_samples.dtype.names),
                newline='\\n',delimiter=' ')
"""
PRSAVE = """        if filename:
            np.savetxt(os.path.join(
                       self.NS.output_folder, filename),
                       prior_samples.ravel(),
                       header=' '.join(prior_samples.dtype.names),
                       newline='\\n',delimiter=' ')
"""
MCSAVE = PRSAVE.replace('prior_samples', 'mcmc_samples')
PRREAD = """        for file in os.listdir(self.NS.output_folder):
            if re.fullmatch(r'prior_samples_[0-9]+\\.dat', file):
                prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
                os.remove(os.path.join(self.NS.output_folder,file))
"""
MCREAD = """        for file in os.listdir(self.NS.output_folder):
            if re.fullmatch(r'mcmc_chain_[0-9]+\\.dat', file):
                mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
                os.remove(os.path.join(self.NS.output_folder,file))
"""
RESULTS = """            if self.verbose >= 2:
                self.NS.check_insertion_indices(rolling=False,
                                                filename='insertion_indices.dat')
                self.logger.critical(
                    "Saving nested samples in {0}".format(self.output)
                )
                self.nested_samples = self.get_nested_samples()
                self.logger.critical(
                    "Saving posterior samples in {0}".format(self.output)
                )
                self.posterior_samples = self.get_posterior_samples()
            else:
                self.NS.check_insertion_indices(rolling=False,
                                                filename=None)
                self.nested_samples = self.get_nested_samples(filename=None)
                self.posterior_samples = self.get_posterior_samples(
                    filename=None
                )
"""
EXTRA = """            if self.verbose>=3 or self.NS.prior_sampling:
                self.prior_samples = self.get_prior_samples(
                    filename='prior.dat' if self.verbose>=3 else None
                )
            if self.verbose>=3 and not self.NS.prior_sampling:
                self.mcmc_samples = self.get_mcmc_samples(filename='mcmc.dat')
            if self.verbose>=2:
                self.plot(corner = False)
"""
def worker(cls, key, index, prop, ind='                '):
    return ("{i}p = self._worker({c}, {n}, {p},\n{i}                 maxmcmc, prior_sampling)\n"
            "{i}self.process_pool.append(p)\n").format(i=ind, c=cls, n=index, p=prop)
WORKERM = """    def _worker(self, cls, index, make_proposal, maxmcmc, prior_sampling):
        resume_file = os.path.join(self.output, "sampler_{0:d}.pkl".format(index))
        if self.resume and os.path.exists(resume_file):
            sampler = cls.resume(resume_file, self.manager, self.user)
        else:
            sampler = cls(self.user,
                          maxmcmc,
                          verbose      = self.verbose,
                          output       = self.output,
                          poolsize     = self.poolsize,
                          seed         = self.seed + index,
                          proposal     = make_proposal(),
                          resume_file  = resume_file,
                          sample_prior = prior_sampling,
                          manager      = self.manager)
        return mp.Process(target=sampler.produce_sample)

"""
QUIET = [
 ('c-worker-helper', [
  (C, MHSLOOP, worker('MetropolisHastingsSampler', 'mhs', 'i', "proposals['mhs']")),
  (C, HMCLOOP, worker('HamiltonianMonteCarloSampler', 'hmc', 'nmhs+i', "lambda: proposals['hmc'](model=self.user)")),
  (C, SLILOOP, worker('SliceSampler', 'sli', 'nmhs+nhamiltonian+i', "proposals['sli']")),
  (C, RUN, WORKERM + RUN)]),
 ('c-worker-range', [
  (C, "            for i in range(nhamiltonian):\n" + HMCLOOP, "            for i in range(nmhs, nmhs+nhamiltonian):\n" + HMCLOOP.replace('nmhs+i', 'i')),
  (C, "            for i in range(nslice):\n" + SLILOOP, "            for i in range(nmhs+nhamiltonian, self.nthreads):\n" + SLILOOP.replace('nmhs+nhamiltonian+i', 'i'))]),
 ('c-worker-counter', [
  (C, "            for i in range(nslice):\n" + SLILOOP, "            offset = nmhs + nhamiltonian\n            for i in range(nslice):\n                index = offset + i\n" + SLILOOP.replace('nmhs+nhamiltonian+i', 'index').replace("\"sampler_{0:d}.pkl\".format(index)", "f'sampler_{index}.pkl'"))]),
 ('c-worker-flip', [
  (C, "                if not os.path.exists(resume_file) or resume == False:\n                    sampler = MetropolisHastingsSampler(self.user,\n                                    maxmcmc,\n                                    verbose     = verbose,\n                                    output      = output,\n                                    poolsize    = poolsize,\n                                    seed        = self.seed+i,\n                                    proposal    = proposals['mhs'](),\n                                    resume_file = resume_file,\n                                    sample_prior = prior_sampling,\n                                    manager     = self.manager\n                                    )\n                else:\n                    sampler = MetropolisHastingsSampler.resume(resume_file,\n                                                            self.manager,\n                                                            self.user)\n\n                p = mp.Process(target=sampler.produce_sample)\n                self.process_pool.append(p)\n",
   "                if resume and os.path.exists(resume_file):\n                    sampler = MetropolisHastingsSampler.resume(resume_file, self.manager, self.user)\n                else:\n                    jump = proposals['mhs']()\n                    sampler = MetropolisHastingsSampler(self.user, maxmcmc, seed=self.seed+i, output=output, verbose=verbose, sample_prior=prior_sampling,\n                                                        poolsize=poolsize, proposal=jump, resume_file=resume_file, manager=self.manager)\n                self.process_pool.append(mp.Process(target=sampler.produce_sample))\n")]),
 ('c-seed-or', [
  (C, """            if seed is None: self.seed = 1234
            else:
                self.seed=seed
""", """            self.seed = 1234 if seed is None else seed
"""),
  (C, """        if nthreads is None:
            self.nthreads = mp.cpu_count()
        else:
            self.nthreads = nthreads
""", """        self.nthreads = nthreads if nthreads is not None else mp.cpu_count()
"""),
  (C, """            if periodic_checkpoint_interval is None:
                periodic_checkpoint_interval = np.inf
""", """            if periodic_checkpoint_interval is None:
                periodic_checkpoint_interval = float('inf')
""")]),
 ('c-ns-flip', [
  (C, """            if not os.path.exists(resume_file) or resume == False:
                self.NS = NestedSampler(self.user,
                            nlive          = nlive,
                            output         = output,
                            verbose        = verbose,
                            seed           = self.seed,
                            prior_sampling = self.prior_sampling,
                            manager        = self.manager)
            else:
                self.NS = NestedSampler.resume(resume_file, self.manager,
                                               self.user)
""", """            can_resume = resume and os.path.exists(resume_file)
            if can_resume:
                self.NS = NestedSampler.resume(resume_file, self.manager, self.user)
            else:
                self.NS = self._new_nested_sampler(NestedSampler)
"""),
  (C, RUN, """    def _new_nested_sampler(self, factory):
        options = dict(nlive=self.nlive,
                       output=self.output,
                       verbose=self.verbose,
                       seed=self.seed,
                       prior_sampling=self.prior_sampling,
                       manager=self.manager)
        return factory(self.user, **options)

""" + RUN)]),
 ('c-proposals-zip', [
  (C, """                proposals = dict(mhs=proposals[0],
                                 hmc=proposals[1],
                                 sli=proposals[2])
""", """                mhs, hmc, sli = proposals
                proposals = {'mhs': mhs, 'hmc': hmc, 'sli': sli}
"""),
  (C, "            elif type(proposals) == list:\n", "            elif isinstance(proposals, list):\n")]),
 ('c-signals-loop', [
  (C, SIGS, """                for signum in (signal.SIGTERM, signal.SIGALRM, signal.SIGQUIT,
                               signal.SIGINT, signal.SIGUSR1, signal.SIGUSR2):
                    signal.signal(signum, sighandler)
""")]),
 ('c-signals-helper', [
  (C, "            if self.resume:\n" + SIGS, "            if self.resume:\n                self._install_handlers()\n"),
  (C, RUN, "    @staticmethod\n    def _install_handlers():\n        handled = ['SIGTERM', 'SIGALRM', 'SIGQUIT', 'SIGINT', 'SIGUSR1', 'SIGUSR2']\n        for name in handled:\n            signal.signal(getattr(signal, name), sighandler)\n\n" + RUN)]),
 ('c-run-helpers', [
  (C, """            for each in self.process_pool:
                each.start()
            try:
                self.NS.nested_sampling_loop()
                for each in self.process_pool:
                    each.join()
            except CheckPoint:
                self.checkpoint()
                sys.exit(130)

""" + RESULTS, """            for each in self.process_pool:
                each.start()
            try:
                self._sample()
            except CheckPoint:
                self.checkpoint()
                sys.exit(130)

            self._collect()
"""),
  (C, RUN, """    def _sample(self):
        self.NS.nested_sampling_loop()
        for worker in self.process_pool:
            worker.join()

    def _collect(self):
""" + RESULTS.replace('\n    ', '\n')[4:] + "\n" + RUN)]),
 ('c-run-verbosity', [
  (C, RESULTS, """            save = self.verbose >= 2
            self.NS.check_insertion_indices(rolling=False,
                                            filename='insertion_indices.dat' if save else None)
            if save:
                self.logger.critical("Saving nested samples in {0}".format(self.output))
                self.nested_samples = self.get_nested_samples()
                self.logger.critical("Saving posterior samples in {0}".format(self.output))
                self.posterior_samples = self.get_posterior_samples()
            else:
                self.nested_samples = self.get_nested_samples(filename=None)
                self.posterior_samples = self.get_posterior_samples(filename=None)
"""),
  (C, EXTRA, """            full = self.verbose >= 3
            prior_run = self.NS.prior_sampling
            if full:
                self.prior_samples = self.get_prior_samples(filename='prior.dat')
                if not prior_run:
                    self.mcmc_samples = self.get_mcmc_samples(filename='mcmc.dat')
            elif prior_run:
                self.prior_samples = self.get_prior_samples(filename=None)
            if self.verbose > 1:
                self.plot(corner=False)
""")]),
 ('c-save-helper', [
  (C, NSAVE, "        self._save(self.nested_samples, filename)\n"),
  (C, PSAVE, "        self._save(posterior_samples, filename)\n"),
  (C, PRSAVE, "        self._save(prior_samples, filename)\n"),
  (C, MCSAVE, "        self._save(mcmc_samples, filename)\n"),
  (C, "    def get_nested_samples(self", """    def _save(self, samples, filename):
        if not filename:
            return
        path = os.path.join(self.NS.output_folder, filename)
        np.savetxt(path, samples.ravel(), header=' '.join(samples.dtype.names), newline='\\n', delimiter=' ')

    def get_nested_samples(self""")]),
 ('c-read-helper', [
  (C, PRREAD, "        prior_samples = self._read_and_remove(r'prior_samples_[0-9]+\\.dat')\n"),
  (C, MCREAD, "        for chain in self._read_and_remove(r'mcmc_chain_[0-9]+\\.dat'):\n            mcmc_samples.append(resample_mcmc_chain(chain))\n"),
  (C, "    def get_nested_samples(self", """    def _read_and_remove(self, pattern):
        tables = []
        folder = self.NS.output_folder
        for name in os.listdir(folder):
            if re.fullmatch(pattern, name) is None:
                continue
            path = os.path.join(folder, name)
            tables.append(np.genfromtxt(path, names=True))
            os.remove(path)
        return tables

    def get_nested_samples(self""")]),
 ('c-read-path', [
  (C, PRREAD, """        folder = self.NS.output_folder
        names = [name for name in os.listdir(folder) if re.fullmatch(r'prior_samples_[0-9]+\\.dat', name)]
        for name in names:
            path = os.path.join(folder, name)
            table = np.genfromtxt(path, names=True)
            os.remove(path)
            prior_samples.append(table)
"""),
  (C, "        prior_samples = stack_arrays([p for p in prior_samples])\n", "        prior_samples = stack_arrays(prior_samples)\n")]),
 ('c-read-sorted', [
  (C, MCREAD, """        for name in sorted(os.listdir(self.NS.output_folder)):
            if not re.fullmatch(r'mcmc_chain_[0-9]+\\.dat', name):
                continue
            path = os.path.join(self.NS.output_folder, name)
            chain = np.genfromtxt(path, names=True)
            mcmc_samples.append(resample_mcmc_chain(chain))
            os.remove(path)
""")]),
 ('c-prior-restructure', [
  (C, """        if not prior_samples and self.prior_samples is not None:
            # the samplers' files were already read in
            prior_samples.append(self.prior_samples)
        elif self.NS.prior_sampling:
            # if we sampled the prior, the nested samples are samples from the prior
            prior_samples.append(self.get_nested_samples())

        if not prior_samples:
""", """        already_read = len(prior_samples) == 0 and self.prior_samples is not None
        if already_read:
            prior_samples = [self.prior_samples]
        if not already_read and self.NS.prior_sampling:
            # if we sampled the prior, the nested samples are samples from the prior
            prior_samples.append(self.get_nested_samples())

        if len(prior_samples) == 0:
""")]),
 ('c-nested-list', [
  (C, """        self.nested_samples = rfn.stack_arrays(
                [s.asnparray()
                    for s in self.NS.nested_samples]
                ,usemask=False)
""", """        records = []
        for point in self.NS.nested_samples:
            records.append(point.asnparray())
        self.nested_samples = rfn.stack_arrays(records, usemask=False)
"""),
  (C, """        posterior_samples  = draw_posterior_many([nested_samples],[self.NS.Nlive],verbose=self.verbose)
        posterior_samples  = np.array(posterior_samples)
""", """        runs, nlives = [nested_samples], [self.NS.Nlive]
        posterior_samples = np.array(draw_posterior_many(runs, nlives, verbose=self.verbose))
""")]),
 ('c-plot-flags', [
  (C, """        if self.verbose>=3 and self.NS.prior_sampling is False:
            pri = self.prior_samples
            mc  = self.mcmc_samples
        elif self.verbose>=3 or self.NS.prior_sampling is True:
            pri = self.prior_samples
            mc  = None
        else:
            pri = None
            mc  = None
""", """        pri, mc = None, None
        if self.verbose >= 3 or self.NS.prior_sampling is True:
            pri = self.prior_samples
        if self.verbose >= 3 and self.NS.prior_sampling is False:
            mc = self.mcmc_samples
"""),
  (C, """                plot.plot_hist(pos[n].ravel(), name = n,
                               prior_samples = self.prior_samples[n].ravel() if pri is not None else None,
                               mcmc_samples = self.mcmc_samples[n].ravel() if mc is not None else None,
                               filename = os.path.join(self.output,'posterior_{0}.pdf'.format(n)))
""", """                prior_column = pri[n].ravel() if pri is not None else None
                mcmc_column = None if mc is None else mc[n].ravel()
                target = os.path.join(self.output, 'posterior_%s.pdf' % n)
                plot.plot_hist(pos[n].ravel(), name=n, prior_samples=prior_column,
                               mcmc_samples=mcmc_column, filename=target)
""")]),
 ('c-plot-flat', [
  (C, """            plotting_posteriors = np.squeeze(pos.view((pos.dtype[0], len(pos.dtype.names))))
            if pri is not None:
                plotting_priors = np.squeeze(pri.view((pri.dtype[0], len(pri.dtype.names))))
            else:
                plotting_priors = None

            if mc is not None:
                plotting_mcmc   = np.squeeze(mc.view((mc.dtype[0], len(mc.dtype.names))))
            else:
                plotting_mcmc   = None
""", """            def as_columns(table):
                if table is None:
                    return None
                return np.squeeze(table.view((table.dtype[0], len(table.dtype.names))))
            plotting_posteriors = as_columns(pos)
            plotting_priors = as_columns(pri)
            plotting_mcmc = as_columns(mc)
""")]),
 ('c-manager-pipes', [
  (C, """        self.producer_pipes = list()
        self.consumer_pipes = list()
        for i in range(nthreads):
            consumer, producer = mp.Pipe(duplex=True)
            self.producer_pipes.append(producer)
            self.consumer_pipes.append(consumer)
""", """        pipes = [mp.Pipe() for _ in range(nthreads)]
        self.consumer_pipes = [pair[0] for pair in pipes]
        self.producer_pipes = [pair[1] for pair in pipes]
""")]),
 ('c-manager-zip', [
  (C, """        self.producer_pipes = list()
        self.consumer_pipes = list()
        for i in range(nthreads):
            consumer, producer = mp.Pipe(duplex=True)
            self.producer_pipes.append(producer)
            self.consumer_pipes.append(consumer)
""", """        self.producer_pipes, self.consumer_pipes = [], []
        for _ in range(nthreads):
            ends = mp.Pipe(duplex=True)
            self.consumer_pipes.append(ends[0])
            self.producer_pipes.append(ends[1])
""")]),
 ('c-connect', [
  (C, """        with self.nconnected.get_lock():
            n = self.nconnected.value
            pipe = self.producer_pipes[n]
            self.nconnected.value+=1
        return pipe, n
""", """        with self.nconnected.get_lock():
            index = self.nconnected.value
            self.nconnected.value = index + 1
        return self.producer_pipes[index], index
""")]),
 ('c-start', [
  (C, """        self.logLmin = mp.Value(c_double,-np.inf)
        self.logLmax = mp.Value(c_double,-np.inf)
        self.checkpoint_flag=mp.Value(c_int,0)
""", """        self.checkpoint_flag = mp.Value(c_int, 0)
        self.logLmin, self.logLmax = mp.Value(c_double, -np.inf), mp.Value(c_double, -np.inf)
""")]),
 ('n-weights-vector', [
  (N2, """    log_vols_end=np.zeros(len(end_data))
    log_vols_end[-1]=-np.inf
    log_vols_end[0]=log_vols_start[-1]+np.log1p(-1.0/Nlive)
    for i in range(len(end_data)-1):
        log_vols_end[i+1]=log_vols_end[i]+np.log1p(-1.0/(Nlive-i))
""", """    log_vols_end=np.zeros(len(end_data))
    log_vols_end[-1]=-np.inf
    log_vols_end[0]=log_vols_start[-1]+np.log1p(-1.0/Nlive)
    for i in range(1, len(end_data)):
        log_vols_end[i]=log_vols_end[i-1]+np.log1p(-1.0/(Nlive-i+1))
""")]),
 ('n-weights-rename', [
  (N2, """    log_wts=np.zeros(data.shape[0])

    log_vols_start""", """    log_vols_start"""),
  (N2, """    log_dXs = logsubexp(log_vols[:-1], log_vols[1:])
    log_wts = log_likes[1:-1] + log_dXs[:-1]

    log_wts -= log_ev

    return log_ev, log_wts
""", """    shells = logsubexp(log_vols[:-1], log_vols[1:])
    return log_ev, log_likes[1:-1] + shells[:-1] - log_ev
""")]),
 ('n-weights-fill', [
  (N2, """    log_vols_start=np.cumsum(np.ones(len(start_data)+1)*np.log1p(-1./Nlive))-np.log1p(-1./Nlive)
""", """    shrinkage = np.log1p(-1./Nlive)
    log_vols_start = np.cumsum(np.full(len(start_data)+1, shrinkage)) - shrinkage
""")]),
 ('n-weights-arange', [
  (N2, """    log_vols_start=np.cumsum(np.ones(len(start_data)+1)*np.log1p(-1./Nlive))-np.log1p(-1./Nlive)
""", """    log_vols_start = np.arange(len(start_data)+1)*np.log1p(-1./Nlive)
""")]),
 ('n-trap', [
  (N2, """    log_func_sum = logaddexp(log_func[:-1], log_func[1:]) - np.log(2)
    log_dxs = logsubexp(log_support[:-1], log_support[1:])

    return logaddexp.reduce(log_func_sum + log_dxs)
""", """    log_widths = logsubexp(log_support[:-1], log_support[1:])
    log_heights = logaddexp(log_func[1:], log_func[:-1]) + np.log(0.5)
    log_areas = log_widths + log_heights
    return np.logaddexp.reduce(log_areas)
""")]),
 ('n-logsubexp', [
  (N2, """    return x + np.log1p(-np.exp(y-x))
""", """    difference = y - x
    return np.log1p(-np.exp(difference)) + x
""")]),
 ('n-draw-vector', [
  (N2, """    maxWt=max(log_wts)
    normalised_wts=log_wts-maxWt
    selection=[n > np.log(uniform()) for n in normalised_wts]
    idx=list(filter(lambda i: selection[i], range(len(selection))))
    return data[idx]
""", """    normalised_wts = log_wts - np.max(log_wts)
    thresholds = np.log(uniform(size=len(normalised_wts)))
    return data[normalised_wts > thresholds]
""")]),
 ('n-draw-loop', [
  (N2, """    selection=[n > np.log(uniform()) for n in normalised_wts]
    idx=list(filter(lambda i: selection[i], range(len(selection))))
    return data[idx]
""", """    idx = []
    for i, weight in enumerate(normalised_wts):
        if np.log(uniform()) < weight:
            idx.append(i)
    return data[idx]
""")]),
 ('n-draw-comp', [
  (N2, """    selection=[n > np.log(uniform()) for n in normalised_wts]
    idx=list(filter(lambda i: selection[i], range(len(selection))))
    return data[idx]
""", """    selection = [n > np.log(uniform()) for n in normalised_wts]
    return data[[i for i, chosen in enumerate(selection) if chosen]]
""")]),
 ('n-many-fracs', [
  (N2, """    Ns=[fracs[i]/len(datas[i]) for i in range(len(fracs))]
    Ntot=max(Ns)
    fracs=[n/Ntot for n in Ns]
""", """    per_sample = [frac/len(data) for frac, data in zip(fracs, datas)]
    largest = max(per_sample)
    fracs = [n/largest for n in per_sample]
"""),
  (N2, """    bigpos=[]
    for post,frac in zip(posts,fracs):
      mask = uniform(size=len(post))<frac
      bigpos.append(post[mask])
    result = np.concatenate([bigpos[i] for i in range(len(bigpos))], axis=None)
""", """    bigpos = [post[uniform(size=len(post)) < frac] for post, frac in zip(posts, fracs)]
    result = np.concatenate(bigpos, axis=None)
""")]),
 ('n-many-weights-loop', [
  (N2, """    log_evs,log_wts=zip(*[compute_weights(data['logL'],Nlive) for data,Nlive in zip(datas, Nlives)])
    LOGGER""", """    log_evs, log_wts = [], []
    for data, Nlive in zip(datas, Nlives):
        log_ev, log_wt = compute_weights(data['logL'], Nlive)
        log_evs.append(log_ev)
        log_wts.append(log_wt)
    LOGGER""")]),
 ('n-many-max', [
  (N2, """    log_max_evidence=max(log_evs)
    #print 'evidences: %s'%(str(log_evs))
    fracs=[np.exp(log_ev-log_max_evidence) for log_ev in log_evs]
""", """    log_max_evidence = np.max(log_evs)
    fracs = list(np.exp(np.array(log_evs) - log_max_evidence))
"""),
  (N2, "    posts=[draw_posterior(data,logwt) for (data,logwt,logZ) in zip(datas,log_wts,log_evs)]\n", "    posts = [draw_posterior(data, logwt, verbose=verbose) for data, logwt in zip(datas, log_wts)]\n")]),
 ('n-drawN', [
  (N2, """    log_cumsums=np.zeros(log_wts.shape[0]+1)
    log_cumsums[0]=-float('inf')
    for i,log_wt in enumerate(log_wts):
        log_cumsums[i+1]=logaddexp(log_cumsums[i], log_wt)
""", """    log_cumsums = np.concatenate(([-np.inf], np.logaddexp.accumulate(log_wts)))
""")]),
 ('n-drawN-running', [
  (N2, """    log_cumsums=np.zeros(log_wts.shape[0]+1)
    log_cumsums[0]=-float('inf')
    for i,log_wt in enumerate(log_wts):
        log_cumsums[i+1]=logaddexp(log_cumsums[i], log_wt)
""", """    log_cumsums = np.full(len(log_wts)+1, -np.inf)
    for i in range(len(log_wts)):
        log_cumsums[i+1] = logaddexp(log_cumsums[i], log_wts[i])
"""),
  (N2, """    us=np.log(uniform(size=N))+log_cumsums[-1]
    idxs=np.digitize(us, log_cumsums)

    return data[idxs-1]
""", """    us = log_cumsums[-1] + np.log(uniform(size=N))
    bins = np.digitize(us, log_cumsums) - 1
    return data[bins]
""")]),
 ('n-drawN-many', [
  (N2, """    Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]
    posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]
    return np.concatenate(posts)
""", """    posts = []
    for data, logwt, log_ev in zip(datas, log_wts, log_evs):
        fraction = np.exp(log_ev - log_total_evidence)
        posts.append(draw_N_posterior(data, logwt, int(round(Npost*fraction))))
    return np.concatenate(posts)
""")]),
 ('n-resample', [
  (N2, """    ACL = []
    for n in chain.dtype.names:
        if n != 'logL' and n != 'logPrior':
            ACL.append(acl(chain[n]))
    ACL = int(np.round(np.max(ACL)))
""", """    lengths = [acl(chain[n]) for n in chain.dtype.names if n not in ('logL', 'logPrior')]
    ACL = int(np.round(max(lengths)))
"""),
  (N2, """    output =  [chain[0]]
    for i in range(1,chain.shape[0]):
        if logpost[i] - logpost[i-1] > np.log(uniform()):
            output.append(chain[i])
""", """    output = [chain[0]]
    for i in range(len(chain) - 1):
        if np.log(uniform()) < logpost[i+1] - logpost[i]:
            output.append(chain[i+1])
""")]),
 ('n-autocorr', [
  (N2, """    m=x.mean()
    v=np.var(x)
    xp=x-m

    cf=np.fft.fft(xp)
    sf=cf.conjugate()*cf
    corr=np.fft.ifft(sf).real/v/len(x)
    return corr
""", """    n = len(x)
    centred = x - np.mean(x)
    transform = np.fft.fft(centred)
    power = np.conjugate(transform)*transform
    return np.fft.ifft(power).real/(n*np.var(x))
""")]),
 ('n-acl-for', [
  (N2, """    T=1
    i=0
    acf = autocorrelation(x)
    while i < len(acf) and acf[i] > tolerance:
        T+=2*acf[i]
        i+=1
    return T
""", """    T = 1
    for value in autocorrelation(x):
        if not value > tolerance:
            break
        T += 2*value
    return T
""")]),
 ('m-inbounds-loop', [
  (MO, """        return all(self.bounds[i][0] < param.values[i] < self.bounds[i][1] for i in range(param.dimension))
""", """        for i in range(param.dimension):
            lower, upper = self.bounds[i]
            if not lower < param.values[i] < upper:
                return False
        return True
""")]),
 ('m-inbounds-zip', [
  (MO, """        return all(self.bounds[i][0] < param.values[i] < self.bounds[i][1] for i in range(param.dimension))
""", """        return all(value > lower and value < upper for value, (lower, upper) in zip(param.values, self.bounds))
""")]),
 ('m-newpoint', [
  (MO, """        logP=-inf
        while(logP==-inf):
            p = LivePoint(self.names,
                          d=array('d',
                                      [uniform(self.bounds[i][0],
                                               self.bounds[i][1])
                                       for i, _ in enumerate(self.names) ]
                                 )
                         )
            logP=self.log_prior(p)
        return p
""", """        while True:
            values = [uniform(low, high) for low, high in self.bounds]
            p = LivePoint(self.names, d=array('d', values))
            if self.log_prior(p) != -inf:
                return p
""")]),
 ('m-newpoint-loop', [
  (MO, """            p = LivePoint(self.names,
                          d=array('d',
                                      [uniform(self.bounds[i][0],
                                               self.bounds[i][1])
                                       for i, _ in enumerate(self.names) ]
                                 )
                         )
""", """            p = LivePoint(self.names)
            for name, bound in zip(self.names, self.bounds):
                p[name] = uniform(bound[0], bound[1])
""")]),
 ('m-logprior', [
  (MO, """        if self.in_bounds(param):
            return 0.0
        else: return -inf
""", """        return 0.0 if self.in_bounds(param) else -inf
""")]),
 ('m-normalised', [
  (MO, """        d=array('d',
                [self.bounds[i][0]
                 + normalised_value[i] * (self.bounds[i][1] - self.bounds[i][0])
                 for i, _ in enumerate(self.names)]
                )
        return LivePoint(self.names, d=d)
""", """        values = []
        for x, (lower, upper) in zip(normalised_value, self.bounds):
            values.append(lower + x * (upper - lower))
        return LivePoint(self.names, d=array('d', values))
"""),
  (MO, """        return array('d', [(v-b[0])/(b[1]-b[0]) for v, b
                           in zip(point.values, self.bounds)])
""", """        normalised = array('d')
        for i in range(point.dimension):
            low, high = self.bounds[i]
            normalised.append((point.values[i] - low)/(high - low))
        return normalised
""")]),
 ('m-strsample', [
  (MO, """        line='\\t'.join('{0:.20e}'.format(sample[n]) for n in sample.names)
        line+='{0:20e}'.format(sample.logL)
        return line
""", """        columns = ['{0:.20e}'.format(sample[n]) for n in sample.names]
        return '\\t'.join(columns) + '{0:20e}'.format(sample.logL)
"""),
  (MO, "        return '\\t'.join(self.names) + '\\tlogL'\n", "        return '\\t'.join(self.names + ['logL'])\n")]),
 ('u-logfile', [
  (UT, """    def __enter__(self):
        self.open()
        return self

    def __exit__(self, type, value, traceback):
        self.close()""", """    def __enter__(self):
        self.open()
        return self

    def __exit__(self, *exc_info):
        self.close()
        return False"""),
  (UT, """        self._logger.removeHandler(self.handler)
        self.handler.close()
        self.handler = None
""", """        handler, self.handler = self.handler, None
        self._logger.removeHandler(handler)
        handler.close()
""")]),
 ('u-handler', [
  (UT, """        self._verbose = verbose
        self.setLevel(LEVELS[verbose])
""", """        self.setLevel(LEVELS[verbose])
        self._verbose = verbose
"""),
  (UT, """        self.handler = FileHandler(self._filename, verbose=self._verbose)
        self._logger.addHandler(self.handler)
""", """        handler = FileHandler(filename=self._filename, verbose=self._verbose)
        self._logger.addHandler(handler)
        self.handler = handler
""")]),
 ('pl-bins', [
  (PL, """    fig = plt.figure()
    ax  = fig.add_subplot(111)
    ax.hist(x, density = True, color='black', linewidth = 1.25,
                histtype='step', bins=max(1, len(x)//50), label = 'posterior')
    if prior_samples is not None:
        ax.hist(prior_samples, density = True, color='green', linewidth = 1.0,
                histtype='step', bins=max(1, len(x)//50), label = 'prior')
    if mcmc_samples is not None:
        ax.hist(mcmc_samples, density = True, color='red', linewidth = 1.0,
                histtype='step', bins=max(1, len(x)//50), label = 'mcmc')
""", """    fig, ax = plt.subplots()
    nbins = max(len(x)//50, 1)
    ax.hist(x, density=True, color='black', linewidth=1.25, histtype='step', bins=nbins, label='posterior')
    for samples, colour, label in ((prior_samples, 'green', 'prior'), (mcmc_samples, 'red', 'mcmc')):
        if samples is not None:
            ax.hist(samples, density=True, color=colour, linewidth=1.0, histtype='step', bins=nbins, label=label)
""")]),
 ('pl-save-helper', [
  (PL, """        if filename is None:
            filename=name+'_chain.pdf'
    if filename is not None:
        plt.savefig(filename, bbox_inches='tight')
    plt.close(fig)
""", """        if filename is None:
            filename = '{0}_chain.pdf'.format(name)
    _save_and_close(fig, filename)

def _save_and_close(fig, filename):
    if filename is not None:
        plt.savefig(filename, bbox_inches='tight')
    plt.close(fig)
""")]),
 ('pl-indices', [
  (PL, """    ax.hist(indices, density=True, color='tab:blue', linewidth=1.25,
                histtype='step', bins=max(1, min(len(indices) // 100, max_bins)))
""", """    nbins = len(indices) // 100
    if nbins > max_bins:
        nbins = max_bins
    ax.hist(indices, density=True, color='tab:blue', linewidth=1.25,
                histtype='step', bins=nbins if nbins > 1 else 1)
""")]),
 ('px-add', [
  (PX, """        assert self.dimension == other.dimension
        result=LivePoint(self.names)
        cdef Py_ssize_t i
        for i in range(self.dimension):
            result.values[i]=self.values[i]+other.values[i]
        return result
""", """        cdef LivePoint result = self.copy_coordinates()
        result += other
        return result

    def copy_coordinates(LivePoint self):
        return LivePoint(self.names, d=self.values)
""")]),
 ('px-copy', [
  (PX, """        cdef LivePoint result = LivePoint(self.names)
        result.__setstate__(self.__getstate__())
        return result
""", """        return LivePoint(self.names, d=self.values, logL=self.logL, logP=self.logP)
""")]),
 ('px-copy2', [
  (PX, """        cdef LivePoint result = LivePoint(self.names)
        result.__setstate__(self.__getstate__())
        return result
""", """        cdef LivePoint result = LivePoint(self.names, self.values)
        result.logP = self.logP
        result.logL = self.logL
        return result
""")]),
 ('px-asnparray', [
  (PX, """        cdef list names = self.names+['logL','logPrior']
        cdef np.ndarray x = np.zeros(1, dtype = {'names':names, 'formats':['f8' for _ in names]})
        for n in self.names: x[n] = self[n]
        x['logL']     = self.logL
        x['logPrior'] = self.logP
        return x""", """        cdef list columns = self.names + ['logL', 'logPrior']
        cdef np.ndarray row = np.zeros(1, dtype=[(column, 'f8') for column in columns])
        row['logPrior'] = self.logP
        row['logL'] = self.logL
        for i in range(self.dimension):
            row[self.names[i]] = self.values[i]
        return row""")]),
 ('px-getitem', [
  (PX, """        cdef Py_ssize_t i
        for i in range(self.dimension):
            if self.names[i] == name:
                return self.values[i]
        raise KeyError
""", """        if name not in self.names:
            raise KeyError(name)
        return self.values[self.names.index(name)]
""")]),
 ('px-cinit', [
  (PX, """        self.logL = logL
        self.logP = logP
        self.names = names
        self.dimension = len(names)
        if d is not None:
            self.values             = array.array('d',d)
        else:
            self.values             = array.array('d',[0]*self.dimension)
""", """        self.names = names
        self.dimension = len(names)
        if d is None:
            self.values = array.array('d', [0.0]*len(names))
        else:
            self.values = array.array('d', d)
        self.logP = logP
        self.logL = logL
""")]),
 ('px-mul', [
  (PX, """            result.values[i]=other*self.values[i]
        return result
""", """            result.values[i] = self.values[i]*other
        return result
"""),
  (PX, """        cdef LivePoint result = LivePoint(self.names)
        cdef Py_ssize_t i
        for i in range(self.dimension):
            result.values[i]=self.values[i]-other.values[i]
        return result
""", """        cdef array.array difference = array.array('d', [self.values[i]-other.values[i] for i in range(self.dimension)])
        return LivePoint(self.names, d=difference)
""")]),
 ('px-setstate', [
  (PX, """          self.logL = state[0]
          self.logP = state[1]
          self.values = array.array('d',state[2])
""", """          self.logL, self.logP, values = state
          self.values = array.array('d', values)
""")]),
]
