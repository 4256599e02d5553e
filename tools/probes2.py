N, S, C, PR, N2, MO, PL, UT, PX = 'NestedSampling.py', 'sampler.py', 'cpnest.py', 'proposal.py', 'nest2pos.py', 'model.py', 'plot.py', 'utils.py', 'parameter.pyx'
PROBES = [
 # C14
 ('C14', 'a1-llmax-contour', [(N, "        obj.logLmax.value = obj.llmax\n", "        obj.logLmax.value = obj.llmin\n")]),
 ('C14', 'a2-state-drop', [(N, "        del state['logger']\n        return state\n\n    def __setstate__(self, state):\n        if 'logger' not in state:", "        del state['logger']\n        state['info'] = 0\n        return state\n\n    def __setstate__(self, state):\n        if 'logger' not in state:")]),
 ('C14', 'a3-condition-reset', [(N, "        obj.last_checkpoint_time = time.time()\n        return obj\n\n    def __getstate__(self):\n        state = self.__dict__.copy()\n        state['llmin']", "        obj.last_checkpoint_time = time.time()\n        obj.condition = np.inf\n        return obj\n\n    def __getstate__(self):\n        state = self.__dict__.copy()\n        state['llmin']")]),
 ('C14', 'a4-max', [(N, "        obj.logLmin.value = obj.llmin\n", "        obj.logLmin.value = max(obj.llmin, obj.params[0].logL)\n")]),
 ('C14', 'a5-sampler-acc', [(S, "        del state['logger']\n        return state\n\n    def __setstate__(self, state):\n        self.__dict__ = state\n        self.manager = None\n", "        del state['logger']\n        return state\n\n    def __setstate__(self, state):\n        self.__dict__ = state\n        self.sub_acceptance = 0.0\n        self.manager = None\n")]),
 ('C14', 'a6-samples-trim', [(S, "        del state['thread_id']\n", "        del state['thread_id']\n        state['samples'] = list(self.samples)[-self.maxmcmc:]\n")]),
 ('C14', 'a7-rng', [(S, "        obj.logLmin = obj.manager.logLmin\n        obj.logLmax = obj.manager.logLmax\n        obj.logger = logging.getLogger(\"cpnest.sample", "        obj.logLmin = obj.manager.logLmax\n        obj.logLmax = obj.manager.logLmax\n        obj.logger = logging.getLogger(\"cpnest.sample")]),
 ('C14', 'a8-lp-reduce', [(PX, "        return (self.logL, self.logP, self.values)\n", "        return (self.logL, self.logL, self.values)\n")]),
 ('C14', 'a9-key', [(N, "        self._key = key\n        self._keys = [self._key(v) for v in iterable]\n", "        self._key = key\n        self._keys = [self._key(v) for v in iterable]\n\n    def __reduce__(self):\n        return (self.__class__, (list(self)[1:],))\n")]),
 # C15
 ('C15', 'b1-direct', [(N, "        self.resume_file = \n", "")]) if False else
 ('C15', 'b1-direct', [(N, "            pickle.dump(self, f)\n        os.replace(tmp_file, self.resume_file)\n", "            pickle.dump(self, f)\n            os.replace(tmp_file, self.resume_file)\n")]),
 ('C15', 'b2-samename', [(S, "        tmp_file = self.resume_file + '.tmp'\n", "        tmp_file = self.resume_file + ('.tmp' if os.path.exists(self.resume_file) else '')\n")]),
 ('C15', 'b3-remove', [(N, "        os.replace(tmp_file, self.resume_file)\n", "        if os.path.exists(self.resume_file): os.remove(self.resume_file)\n        os.rename(tmp_file, self.resume_file)\n")]),
 ('C15', 'b4-finally', [(S, "        with open(tmp_file, \"wb\") as f:\n            pickle.dump(self, f)\n        os.replace(tmp_file, self.resume_file)\n", "        try:\n            with open(tmp_file, \"wb\") as f:\n                pickle.dump(self, f)\n        finally:\n            os.replace(tmp_file, self.resume_file)\n")]),
 # C16
 ('C16', 'c1-mid', [(N, "            self.acceptance = float(self.accepted)/float(self.accepted + self.rejected)\n", "            self.acceptance = float(self.accepted)/float(self.accepted + self.rejected)\n            if self.manager.checkpoint_flag.value: self.checkpoint()\n")]),
 ('C16', 'c2-verbose', [(N, "                if (self.iteration % self.Nlive) < self.manager.nthreads:\n", "                if (self.iteration % self.Nlive) < self.manager.nthreads:\n                    self.nested_samples = list(self.nested_samples)\n")]),
 ('C16', 'c3-before-remove', [(N, "        self.params.remove_n_worst_points(nreplace)\n\n    def", "        if self.iteration % (10*self.Nlive) < nreplace: self.checkpoint()\n        self.params.remove_n_worst_points(nreplace)\n\n    def")]),
 # C17
 ('C17', 'd1-gen', [(S, "                (Nmcmc, outParam) = next(self.yield_sample(logLmin))\n", "                self.walk = self.yield_sample(logLmin)\n                (Nmcmc, outParam) = next(self.walk)\n")]),
 ('C17', 'd2-lock', [(S, "        self.last_checkpoint_time = time.time()\n\n    def reset", "        self.last_checkpoint_time = time.time()\n        self.lock = self.logLmax.get_lock()\n\n    def reset")]),
 ('C17', 'd3-lambda-key', [(N, "live_points, key=attrgetter('logL'))", "live_points, key=lambda p: p.logL)")]),
 ('C17', 'd4-model-in-proposal', [(PR, "        self.V              = model.potential\n", "        self.V              = model.potential\n        self.user_model     = model\n")]),
 ('C17', 'd5-logger', [(PR, "        self.cyclelength = cyclelength\n", "        self.cyclelength = cyclelength\n        self.pick = lambda: np.random.randint(cyclelength)\n")]),
 ('C17', 'd6-ns-pipes', [(N, "        nreplace = len(self.manager.consumer_pipes)\n", "        self.pipes = self.manager.consumer_pipes\n        nreplace = len(self.pipes)\n")]),
 ('C17', 'd7-file', [(N, "        header              = open(os.path.join(output,'header.txt'),'w')\n", "        self.header_file = header = open(os.path.join(output,'header.txt'),'w')\n")]),
 # C18
 ('C18', 'e1-seed', [(C, "                        seed        = self.seed+nmhs+i,\n", "                        seed        = self.seed+i,\n")]),
 ('C18', 'e2-slice-file', [(C, "\"sampler_{0:d}.pkl\".format(nmhs+nhamiltonian+i)", "\"sampler_{0:d}.pkl\".format(nhamiltonian+i)")]),
 ('C18', 'e3-noseed', [(S, "        np.random.seed(seed=self.seed)\n", "        if self.seed: np.random.seed(seed=self.seed)\n")]),
 ('C18', 'e4-late', [(S, "            np.random.seed()\n", "            np.random.seed(self.seed)\n") if False else (S, "        np.random.seed(seed=self.seed)\n        for n in tqdm", "        for n in tqdm")]),
 ('C18', 'e5-mod', [(C, "                                    seed        = self.seed+i,\n", "                                    seed        = (self.seed+i)%32,\n")]),
 ('C18', 'e6-base', [(C, "seed        = self.seed+nmhs+nhamiltonian+i,", "seed        = self.seed+nmhs*nhamiltonian+i,")]),
 ('C18', 'e7-resume-file', [(S, "        self.resume_file = resume_file\n", "        self.resume_file = os.path.join(output, 'sampler.pkl') if output and not resume_file else os.path.join(output or '', 'sampler_%d.pkl' % (maxmcmc % 7))\n")]),
 # C19
 ('C19', 'f1-header', [(N, "header              = open(os.path.join(output,'header.txt'),'w')", "header              = open(output+'header.txt','w')")]),
 ('C19', 'f2-cwd', [(N, "        evidence_file = os.path.join(output,chain_filename+\"_evidence.txt\")\n", "        evidence_file = chain_filename+\"_evidence.txt\"\n")]),
 ('C19', 'f3-glob', [(C, "            if re.fullmatch(r'prior_samples_[0-9]+\\.dat', file):", "            if re.match(r'prior', file):")]),
 ('C19', 'f4-plot', [(C, "filename=os.path.join(self.output,'nschain_{0}.pdf'.format(n))", "filename='nschain_{0}.pdf'.format(n)")]),
 ('C19', 'f5-plotnone', [(C, "            plot.plot_indices(self.NS.insertion_indices, filename=os.path.join(self.output, 'insertion_indices.pdf'))", "            plot.plot_indices(self.NS.insertion_indices, filename=os.path.join(os.path.dirname(self.output.rstrip('/')), 'insertion_indices.pdf'))")]),
 ('C19', 'f6-chainname', [(N, "        if self.verbose>1 :\n          self.state.plot(os.path.join(self.output_folder,'logXlogL.png'))\n", "        if self.verbose>1 :\n          self.state.plot('logXlogL.png')\n")]),
 ('C19', 'f7-debug', [(PR, "        self.DEBUG          = 0\n", "        self.DEBUG          = 1\n")]),
 # C20
 ('C20', 'g1-header-order', [(PX, "        cdef list names = self.names+['logL','logPrior']\n", "        cdef list names = self.names+['logPrior','logL']\n")]),
 ('C20', 'g2-sorted', [(N, "        header.write('\\t'.join(self.model.names))\n", "        header.write('\\t'.join(sorted(self.model.names)))\n")]),
 ('C20', 'g3-strsample', [(MO, "        line='\\t'.join('{0:.20e}'.format(sample[n]) for n in sample.names)\n", "        line='\\t'.join('{0:.20e}'.format(sample[n]) for n in sorted(sample.names))\n")]),
 ('C20', 'g4-names', [(C, "                header=' '.join(self.nested_samples.dtype.names),\n", "                header=' '.join(self.user.names + ['logPrior', 'logL']),\n")]),
 ('C20', 'g5-swap', [(PX, "        x['logL']     = self.logL\n        x['logPrior'] = self.logP\n", "        x['logL']     = self.logP\n        x['logPrior'] = self.logL\n")]),
 ('C20', 'g6-evid', [(N, "self.state.logZ, self.logLmax.value, self.state.info)", "self.state.logZ, self.state.info, self.logLmax.value)")]),
 ('C20', 'g7-drop', [(MO, "        return '\\t'.join(self.names) + '\\tlogL'\n", "        return '\\t'.join(self.names) + '\\tlogL\\tlogPrior'\n")]),
 ('C20', 'g8-sampler-head', [(S, "header=' '.join(prior_samples.dtype.names)", "header=' '.join(self.model.names)")]),
 # C21
 ('C21', 'h1-remove-first', [(C, "                prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))\n                os.remove(os.path.join(self.NS.output_folder,file))\n", "                table = os.path.join(self.NS.output_folder,file)\n                if os.path.getsize(table): prior_samples.append(np.genfromtxt(table, names = True))\n                os.remove(table)\n") if False else (C, "                prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))\n                os.remove(os.path.join(self.NS.output_folder,file))\n", "                if len(prior_samples) < self.nthreads - 1: prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))\n                os.remove(os.path.join(self.NS.output_folder,file))\n")]),
 ('C21', 'h2-saved-before', [(C, "        posterior_samples  = np.array(posterior_samples)\n", "        posterior_samples  = np.array(posterior_samples)\n        full = posterior_samples\n"), (C, "        return posterior_samples\n\n    def get_prior", "        return full[::2]\n\n    def get_prior")]),
 ('C21', 'h3-unique', [(C, "                [s.asnparray()\n                    for s in self.NS.nested_samples]\n", "                [s.asnparray()\n                    for s in self.NS.nested_samples if s.logP != 0]\n")]),
 ('C21', 'h4-run-order', [(C, "            if self.verbose>=3 and not self.NS.prior_sampling:\n                self.mcmc_samples = self.get_mcmc_samples(filename='mcmc.dat')\n", "            if self.verbose>=3 and not self.prior_sampling:\n                self.get_mcmc_samples(filename='mcmc.dat')\n")]),
 ('C21', 'h5-lastonly', [(C, "        mcmc_samples = stack_arrays([p for p in mcmc_samples])\n", "        mcmc_samples = stack_arrays([p for p in mcmc_samples if len(p) > 1])\n")]),
 ('C21', 'h6-burnin', [(S, "prior_samples = rfn.stack_arrays([prior_samples[j].asnparray()\n                for j in range(0,len(prior_samples))],usemask=False)", "prior_samples = rfn.stack_arrays([prior_samples[j].asnparray()\n                for j in range(1,len(prior_samples))],usemask=False)")]),
 # C23
 ('C23', 'i1-sub', [(PX, "            result.values[i]=self.values[i]-other.values[i]\n        return result\n", "            result.values[i]=self.values[i]-other.values[i]\n        result.logL = self.logL\n        self.logL = -INFINITY\n        return result\n")]),
 ('C23', 'i2-isub', [(PX, "            self.values[i]-=other.values[i]\n", "            self.values[i]+=-1*other.values[i] if i < 10 else 0\n")]),
 ('C23', 'i3-itruediv', [(PX, "            self.values[i]/=other\n", "            self.values[i]*=1.0/other\n")]),
 ('C23', 'i4-copy-share', [(PX, "        result.__setstate__(self.__getstate__())\n", "        result.logL = self.logL\n        result.logP = self.logP\n        result.values = self.values\n")]),
 ('C23', 'i5-getitem', [(PX, "            if self.names[i] == name:\n                return self.values[i]\n", "            if self.names[i].lower() == name.lower():\n                return self.values[i]\n")]),
 ('C23', 'i6-setitem', [(PX, "                self.values[i] = value\n                return\n        raise KeyError\n", "                self.values[i] = value\n                break\n")]),
 ('C23', 'i7-mul', [(PX, "            result.values[i]=other*self.values[i]\n", "            result.values[i]=other*self.values[0]\n")]),
 ('C23', 'i8-reduce-names', [(PX, "(self.names,),self.__getstate__())", "(sorted(self.names),),self.__getstate__())")]),
 # C24
 ('C24', 'j1-off', [(N2, "    log_wts = log_likes[1:-1] + log_dXs[:-1]\n", "    log_wts = log_likes[1:-1] + log_dXs[1:]\n")]),
 ('C24', 'j2-logl', [(N2, "    log_wts = log_likes[1:-1] + log_dXs[:-1]\n", "    log_wts = log_likes[:-2] + log_dXs[:-1]\n")]),
 ('C24', 'j3-min', [(N2, "    maxWt=max(log_wts)\n", "    maxWt=np.percentile(log_wts, 99.9)\n")]),
 ('C24', 'j4-idx', [(N2, "    return data[idxs-1]\n", "    return data[np.minimum(idxs, len(data)-1)]\n")]),
 ('C24', 'j5-many', [(N2, "for data,Nlive in zip(datas, Nlives)])\n    LOGGER", "for data,Nlive in zip(datas, sorted(Nlives))])\n    LOGGER")]),
 ('C24', 'j6-frac', [(N2, "    Ns=[fracs[i]/len(datas[i]) for i in range(len(fracs))]\n", "    Ns=[fracs[i]*len(datas[i]) for i in range(len(fracs))]\n")]),
 ('C24', 'j7-end', [(N2, "log_vols_end[i+1]=log_vols_end[i]+np.log1p(-1.0/(Nlive-i))", "log_vols_end[i+1]=log_vols_end[i]+np.log1p(-1.0/(Nlive-i-1))")]),
 ('C24', 'j8-seed', [(N2, "      mask = uniform(size=len(post))<frac\n", "      mask = uniform(size=len(post))<np.sqrt(frac)\n")]),
 ('C24', 'j9-round', [(N2, "    Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]\n", "    Ns=[int(round(Npost*np.exp(log_ev-max(log_evs))/len(log_evs))) for log_ev in log_evs]\n")]),
 ('C24', 'j10-sort', [(N2, "    return data[idx]\n", "    return np.sort(data, order='logL')[idx]\n")]),
 # C25
 ('C25', 'k1-le', [(MO, "self.bounds[i][0] < param.values[i] < self.bounds[i][1]", "self.bounds[i][0] <= param.values[i] < self.bounds[i][1]")]),
 ('C25', 'k2-any', [(MO, "for i in range(param.dimension))\n", "for i in range(param.dimension) if self.bounds[i][0] != self.bounds[i][1])\n")]),
 ('C25', 'k3-newpoint', [(MO, "            logP=self.log_prior(p)\n        return p\n", "            logP=self.log_prior(p)\n            if not self.in_bounds(p): break\n        return p\n")]),
 ('C25', 'k4-tonorm', [(MO, "(v-b[0])/(b[1]-b[0])", "(v-b[0])/(b[1]-abs(b[0]))")]),
 ('C25', 'k5-potential', [(MO, "        return -self.log_prior(param)\n", "        return -self.log_prior(param) if self.in_bounds(param) else 0.0\n")]),
 ('C25', 'k6-fromnorm-clip', [(MO, "                 + normalised_value[i] * (self.bounds[i][1] - self.bounds[i][0])\n", "                 + max(0.0, normalised_value[i]) * (self.bounds[i][1] - self.bounds[i][0])\n")]),
 ('C25', 'k7-prior', [(MO, "            return 0.0\n        else: return -inf\n", "            return 0.0\n        else: return -1e300\n")]),
 # C26
 ('C26', 'l1-exit', [(UT, "    def __exit__(self, type, value, traceback):\n        self.close()", "    def __exit__(self, type, value, traceback):\n        if type is not SystemExit:\n            self.close()")]),
 ('C26', 'l2-noclose', [(UT, "        self._logger.removeHandler(self.handler)\n        self.handler.close()\n", "        self._logger.removeHandler(self.handler)\n        if self.handler.stream is None: self.handler.close()\n") if False else (UT, "        self._logger.removeHandler(self.handler)\n        self.handler.close()\n", "        self._logger.removeHandler(self.handler)\n        self.handler.flush()\n")]),
 ('C26', 'l3-once', [(UT, "        self.handler = FileHandler(self._filename, verbose=self._verbose)\n        self._logger.addHandler(self.handler)\n", "        if not self._logger.handlers:\n            self._logger.addHandler(FileHandler(self._filename, verbose=self._verbose))\n        self.handler = self._logger.handlers[-1]\n")]),
 ('C26', 'l4-outside', [(C, "            if self.verbose>=2:\n                self.plot(corner = False)\n", "        if self.verbose>=2:\n            self.plot(corner = False)\n")]),
 ('C26', 'l5-manual', [(C, "    def run(self):\n        \"\"\"\n        Run the sampler\n        \"\"\"\n\n        with self.log_file:\n", "    def run(self):\n        \"\"\"\n        Run the sampler\n        \"\"\"\n        self._run()\n        self.log_file.close()\n\n    def _run(self):\n        self.log_file.open()\n        if True:\n")]),
 # C27
 ('C27', 'm1-reset', [(S, "                if np.isfinite(p.logP): break\n", "                if not np.isnan(p.logP): break\n")]),
 ('C27', 'm2-mh', [(S, "                newparam.logP = self.model.log_prior(newparam)\n\n                if newparam.logP-logp_old", "                newparam.logP = self.model.log_prior(newparam)\n                newparam.logL = self.model.log_likelihood(newparam)\n                if newparam.logP-logp_old"), (S, "                    newparam.logL = self.model.log_likelihood(newparam)\n                    if newparam.logL > logLmin:\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()\n                        logp_old", "                    if newparam.logL > logLmin:\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()\n                        logp_old")]),
 ('C27', 'm3-slice-ge', [(S, "                    if newparam.logP > Yp:\n", "                    if newparam.logP >= Yp:\n"), (S, "                Yp = oldparam.logP-np.random.exponential()\n", "                Yp = oldparam.logP-np.random.exponential()*np.inf\n")]),
 ('C27', 'm4-attempts', [(S, "            while True: # Generate an in-bounds sample\n", "            for attempt in range(1000): # Generate an in-bounds sample\n")]),
 # C28
 ('C28', 'n1-pool', [(C, "                        poolsize    = poolsize,\n                        seed        = self.seed+nmhs+i,\n", "                        poolsize    = self.nlive,\n                        seed        = self.seed+nmhs+i,\n")]),
 ('C28', 'n2-proposals', [(C, "sli=proposals[2])", "sli=proposals[-1])")]),
 ('C28', 'n3-interval', [(C, "                periodic_checkpoint_interval=periodic_checkpoint_interval\n            )", "                periodic_checkpoint_interval=periodic_checkpoint_interval or np.inf\n            )")]),
 ('C28', 'n4-seed0', [(C, "            if seed is None: self.seed = 1234\n", "            if not seed: self.seed = 1234\n")]),
 ('C28', 'n5-nthreads', [(C, "            nmhs = self.nthreads-nhamiltonian-nslice\n", "            nmhs = max(1, self.nthreads-nhamiltonian-nslice)\n")]),
 ('C28', 'n6-verbose', [(C, "                        verbose     = verbose,\n                        output      = output,\n                        poolsize    = poolsize,\n                        seed        = self.seed+nmhs+i,", "                        verbose     = min(verbose, 2),\n                        output      = output,\n                        poolsize    = poolsize,\n                        seed        = self.seed+nmhs+i,")]),
 ('C28', 'n7-resume', [(C, "                if not os.path.exists(resume_file) or resume == False:\n                    sampler = SliceSampler", "                if not os.path.exists(resume_file) or not self.prior_sampling:\n                    sampler = SliceSampler")]),
 ('C28', 'n8-sampler-maxmcmc', [(S, "        self.maxmcmc = maxmcmc\n", "        self.maxmcmc = max(maxmcmc, poolsize)\n")]),
 ('C28', 'n9-nlive', [(N, "        self.Nlive          = nlive\n", "        self.Nlive          = max(nlive, manager.nthreads)\n")]),
 # C29
 ('C29', 'o1-or', [(S, "or sub_counter >= self.maxmcmc:\n                    break\n\n            # Put", "or sub_counter >= self.maxmcmc*len(self.evolution_points):\n                    break\n\n            # Put")]),
 ('C29', 'o2-reset-counter', [(S, "                        sub_accepted+=1\n", "                        sub_accepted+=1\n                        sub_counter = max(1, sub_counter - 1)\n")]),
 ('C29', 'o3-slice', [(S, "                    if Xprime < 0.0:\n                        self.L = Xprime\n                        self.Nc = self.Nc + 1\n", "                    if Xprime < 0.0:\n                        self.L = Xprime\n                        self.Nc = self.Nc + 1\n                        slice -= 1\n")]),
 ('C29', 'o4-slice-max', [(S, "        self.max_slices     = self.maxmcmc # maximum number of slices allowed\n", "        self.max_slices     = np.inf # maximum number of slices allowed\n")]),
 # C30
 ('C30', 'p1-append-if', [(S, "            # Put sample back in the stack, unless that sample led to zero accepted points\n            self.evolution_points.append(oldparam)\n", "            # Put sample back in the stack, unless that sample led to zero accepted points\n            if sub_accepted > 0: self.evolution_points.append(oldparam)\n")]),
 ('C30', 'p2-slice-double', [(S, "                self.evolution_points.append(oldparam)\n                j += 1\n", "                self.evolution_points.append(oldparam.copy())\n                self.evolution_points.append(oldparam)\n                j += 1\n")]),
 ('C30', 'p3-stats', [(S, "            self.mcmc_accepted += sub_accepted\n            self.mcmc_counter += sub_counter\n            self.acceptance    = float", "            self.mcmc_accepted += min(sub_accepted, 1)\n            self.mcmc_counter += sub_counter\n            self.acceptance    = float")]),
 ('C30', 'p4-slice-lost', [(S, "                if oldparam.logL > logLmin:\n                    break\n                self.evolution_points.append(oldparam)\n", "                if oldparam.logL > logLmin:\n                    break\n                if oldparam.logL > -np.inf: self.evolution_points.append(oldparam)\n")]),
 ('C30', 'p5-hmc', [(S, "            self.samples.append(oldparam)\n            self.evolution_points.append(oldparam)\n\n            self.sub_acceptance", "            self.samples.append(oldparam)\n            self.evolution_points.appendleft(oldparam)\n            if len(self.evolution_points) > self.poolsize//2: self.evolution_points.pop()\n\n            self.sub_acceptance")]),
 # C31
 ('C31', 'q1', [(PL, "bins=max(1, min(len(indices) // 100, max_bins))", "bins=min(len(indices) // 100 or 1, max_bins - 30 if len(indices) < 100 else max_bins)")]),
 ('C31', 'q2', [(PL, "histtype='step', bins=max(1, len(x)//50), label = 'mcmc')", "histtype='step', bins=max(1, len(x)//50) if len(mcmc_samples) > 50 else len(mcmc_samples)//50, label = 'mcmc')")]),
 # C32
 ('C32', 'r1', [(PR, "        super(HamiltonianProposal,self).set_ensemble(ensemble)\n        self.update_mass()\n        self.update_normal_vector()\n        self.update_momenta_distribution()\n", "        super(HamiltonianProposal,self).set_ensemble(ensemble)\n        self.update_normal_vector()\n        self.update_momenta_distribution()\n        self.update_mass()\n")]),
 ('C32', 'r2', [(PR, "        super(EnsembleEigenVector,self).set_ensemble(ensemble)\n        self.update_eigenvectors()\n", "        self.update_eigenvectors() if self.ensemble else None\n        super(EnsembleEigenVector,self).set_ensemble(ensemble)\n")]),
 ('C32', 'r3', [(PR, "            if isinstance(p,EnsembleProposal):\n                p.set_ensemble(self.ensemble)\n", "            if isinstance(p,EnsembleProposal) and not isinstance(p,EnsembleEigenVector):\n                p.set_ensemble(self.ensemble)\n")]),
 ('C32', 'r4', [(PR, "            self.covariance = np.cov(cov_array)\n            self.eigen_values,self.eigen_vectors = np.linalg.eigh(self.covariance)\n", "            if self.covariance is not None: self.eigen_values,self.eigen_vectors = np.linalg.eigh(self.covariance)\n            self.covariance = np.cov(cov_array)\n            if self.eigen_vectors is None: self.eigen_values,self.eigen_vectors = np.linalg.eigh(self.covariance)\n")]),
 ('C32', 'r5', [(S, "        self.proposal.set_ensemble(self.evolution_points)\n        # initialise the structure", "        # initialise the structure")]),
 ('C32', 'r6', [(PR, "            for i,name in enumerate(self.ensemble[0].names):\n                for j in range(n): cov_array[i,j] = self.ensemble[j][name]\n            self.covariance = np.cov(cov_array)\n            self.eigen", "            for i,name in enumerate(self.ensemble[0].names):\n                for j in range(n//2, n): cov_array[i,j] = self.ensemble[j][name]\n            self.covariance = np.cov(cov_array)\n            self.eigen")]),
 # C33
 ('C33', 's1', [(N, "        self.logZ = self.state.logZ\n        # output", "        self.logZ = self.state.oldZ\n        # output")]),
 ('C33', 's2', [(N, "        # Refine evidence estimate\n        self.state.finalise()\n", "        # Refine evidence estimate\n        self.write_evidence_to_file()\n        self.state.finalise()\n"), (N, "        # output the chain and evidence\n        self.write_chain_to_file()\n        self.write_evidence_to_file()\n", "        # output the chain and evidence\n        self.write_chain_to_file()\n")]),
 ('C33', 's3', [(N, "            for ns in self.nested_samples:\n                f.write", "            for ns in self.nested_samples[self.iteration and 0 or 0:]:\n                if ns.logL > -np.inf: f.write")]),
 ('C33', 's4', [(N, "        return self.state.logZ, self.nested_samples\n", "        return logaddexp(self.state.logZ, -np.inf) - self.state.info*0 + self.logZ*0 + self.state.oldZ, self.nested_samples\n")]),
 ('C33', 's5', [(N, "        with open(self.output_file,\"w\") as f:\n            f.write('{0:s}\\n'.format(self.model.header()", "        with open(self.output_file,\"a\") as f:\n            f.write('{0:s}\\n'.format(self.model.header()")]),
 # C34
 ('C34', 't1', [(N, "(index - nreplace) / (self.Nlive - k - 1)", "(index - nreplace) / (self.Nlive - nreplace)")]),
 ('C34', 't2', [(N, "            indices = self.insertion_indices[-self.Nlive:]\n", "            indices = self.insertion_indices[:self.Nlive]\n")]),
 ('C34', 't3', [(N, "(index - nreplace) / (self.Nlive - k - 1)", "max(0, index - nreplace) // 1 / (self.Nlive - k)")]),
 ('C34', 't4', [(N, "        for k in reversed(self.worst):\n", "        for k in self.worst:\n")]),
 ('C34', 't5', [(N, "            indices = self.insertion_indices\n", "            indices = self.insertion_indices[-10*self.Nlive:]\n")]),
 # C22
 ('C22', 'u1', [(N, "self.logger.warn(\"Likelihood function returned NaN for params \"+str(params))", "self.log.warning(\"Likelihood function returned NaN for params \"+str(params))")]),
 ('C22', 'u2', [(S, "        if self.verbose >= 3:\n            for i in range(len(self.model.names)):\n", "        if self.verbose >= 3:\n            ACLs = ACL if len(ACL) else None\n            for i in range(len(self.model.name)):\n")]),
 ('C22', 'u3', [(PR, "filename = 'trajectory_'+str(self.c)+'.txt'", "filename = 'trajectory_'+str(self.counter)+'.txt'")]),
 ('C22', 'u4', [(C, "            self.logger.critical('ERROR, no MCMC samples found!')\n            return None\n", "            self.logger.critical('ERROR, no MCMC samples found in %s!' % output_folder)\n            return None\n")]),
 ('C22', 'u5', [(N2, "    if burnin: chain = chain[chain.shape[0]//2:]\n", "    if burnin: chain = chain[chain.shape[0]//2:].resize(nsamples)\n")]),
]
