"""behaviour-preserving edits around the code of C35-C40"""
N, S, PR, N2 = 'NestedSampling.py', 'sampler.py', 'proposal.py', 'nest2pos.py'
CYC = """        self.cycle = np.random.choice(self.proposals, size=self.cyclelength,
                                      p=self.weights, replace=True)
        self.N=len(self.cycle)
"""
NORM = """        norm = sum(weights)
        for i, _ in enumerate(weights):
            weights[i]=weights[i] / norm
        return weights
"""
GET = """        self.idx = (self.idx + 1) % self.N
        p = self.cycle[self.idx]
        new = p.get_sample(old,**kwargs)
        self.log_J = p.log_J
        return new
"""
GETD = """        self.idx = (self.idx + 1) % self.N
        p = self.cycle[self.idx]
        new = p.get_direction(mu = mu, **kwargs)
        self.log_J = p.log_J
        return new
"""
ADD = """        self.proposals = self.proposals + [proposal]
        self.weights = self.weights + [weight]
        self.set_cycle()
"""
FLY = """        if self.sub_acceptance == 0.0:
            self.Nmcmc_exact = (1.0 + 1.0/tau)*self.Nmcmc_exact
        else:
            self.Nmcmc_exact = (1.0 - 1.0/tau)*self.Nmcmc_exact + (safety/tau)*(2.0/self.sub_acceptance - 1.0)

        self.Nmcmc_exact = float(min(self.Nmcmc_exact,self.maxmcmc))
        self.Nmcmc = max(safety,int(self.Nmcmc_exact))

        return self.Nmcmc
"""
EST = """        ACL = []
        samples = np.array([x.values for x in self.samples[-5*self.maxmcmc:]])
        # compute the ACL on 5 times the maxmcmc set of samples
        ACL = [acl(samples[:,i]) for i in range(samples.shape[1])]
"""
CAP = """        self.Nmcmc = int(np.max(ACL))
        if self.Nmcmc < 1:
            self.Nmcmc = 1
        if self.Nmcmc < safety:
            self.Nmcmc = safety
        return self.Nmcmc
"""
ACC = """            self.sub_acceptance = float(sub_accepted)/float(sub_counter)
            self.mcmc_accepted += sub_accepted
            self.mcmc_counter += sub_counter
            self.acceptance    = float(self.mcmc_accepted)/float(self.mcmc_counter)
"""
EVO = """            _, p = next(self.yield_sample(-np.inf))
            self.estimate_nmcmc_on_the_fly()
"""
EXITACC = """            self.mcmc_accepted += sub_accepted
            self.mcmc_counter  += sub_counter
            self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)

            for p in self.proposal.proposals:
"""
RS = """    output =  [chain[0]]
    for i in range(1,chain.shape[0]):
        if logpost[i] - logpost[i-1] > np.log(uniform()):
            output.append(chain[i])

    output = np.array(output)
"""
ACLL = """    ACL = []
    for n in chain.dtype.names:
        if n != 'logL' and n != 'logPrior':
            ACL.append(acl(chain[n]))
    ACL = int(np.round(np.max(ACL)))
"""
TH = """    chain = chain[::ACL]
    np.random.shuffle(chain)
"""
ACLB = """    T=1
    i=0
    acf = autocorrelation(x)
    while i < len(acf) and acf[i] > tolerance:
        T+=2*acf[i]
        i+=1
    return T
"""
NCK = """                if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                    self.checkpoint()
                    self.last_checkpoint_time = time.time()
"""
SCK = """            if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                self.checkpoint()
                self.last_checkpoint_time = time.time()
"""
NCLASS = """    def checkpoint(self):
        \"\"\"
        Checkpoint its internal state
        \"\"\"
        self.logger.critical("""
SPROD = """    def _produce_sample(self):
"""
QUIET = [
 ('cyc-pos-args', [(PR, CYC, "        self.cycle = np.random.choice(self.proposals, self.cyclelength, True, self.weights)\n        self.N = self.cyclelength\n")]),
 ('cyc-indices', [(PR, CYC, "        order = np.random.choice(len(self.proposals), size=self.cyclelength, p=self.weights)\n        self.cycle = [self.proposals[i] for i in order]\n        self.N = len(self.cycle)\n")]),
 ('cyc-pychoices', [(PR, CYC, "        import random\n        self.cycle = random.choices(self.proposals, weights=self.weights, k=self.cyclelength)\n        self.N = len(self.cycle)\n")]),
 ('cyc-nkeep', [(PR, CYC, "        n = self.cyclelength\n        self.cycle = np.random.choice(self.proposals, size=n, p=self.weights, replace=True)\n        self.N = n\n")]),
 ('norm-comp', [(PR, NORM, "        total = sum(weights)\n        return [w / total for w in weights]\n")]),
 ('norm-np', [(PR, NORM, "        w = np.array(weights, dtype=float)\n        return list(w / w.sum())\n")]),
 ('norm-range', [(PR, NORM, "        norm = float(sum(weights))\n        for i in range(len(weights)):\n            weights[i] /= norm\n        return weights\n")]),
 ('get-next', [(PR, GET, "        p = self._next()\n        new = p.get_sample(old,**kwargs)\n        self.log_J = p.log_J\n        return new\n\n    def _next(self):\n        self.idx = (self.idx + 1) % self.N\n        return self.cycle[self.idx]\n"), (PR, GETD, "        p = self._next()\n        new = p.get_direction(mu = mu, **kwargs)\n        self.log_J = p.log_J\n        return new\n")]),
 ('get-wrap', [(PR, GET, "        self.idx += 1\n        if self.idx >= self.N:\n            self.idx = 0\n        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)\n        self.log_J = p.log_J\n        return new\n")]),
 ('get-after', [(PR, GET, "        p = self.cycle[self.idx]\n        self.idx = (self.idx + 1) % self.N\n        new = p.get_sample(old,**kwargs)\n        self.log_J = p.log_J\n        return new\n")]),
 ('get-lenc', [(PR, GET, "        self.idx = (self.idx + 1) % len(self.cycle)\n        jump = self.cycle[self.idx]\n        result = jump.get_sample(old, **kwargs)\n        self.log_J = jump.log_J\n        return result\n")]),
 ('getd-names', [(PR, GETD, "        self.idx = (self.idx + 1) % self.N\n        jump = self.cycle[self.idx]\n        direction = jump.get_direction(mu, **kwargs)\n        self.log_J = jump.log_J\n        return direction\n")]),
 ('add-copy', [(PR, ADD, "        self.proposals = list(self.proposals) + [proposal]\n        self.weights = list(self.weights) + [weight]\n        self.set_cycle()\n")]),
 ('add-star', [(PR, ADD, "        self.proposals = [*self.proposals, proposal]\n        self.weights = [*self.weights, weight]\n        self.set_cycle()\n")]),
 ('add-order', [(PR, ADD, "        self.weights = self.weights + [weight]\n        self.proposals = self.proposals + [proposal]\n        self.set_cycle()\n")]),
 ('fly-local', [(S, FLY, "        acc = self.sub_acceptance\n        n = self.Nmcmc_exact\n        if acc == 0.0:\n            n = n + n/tau\n        else:\n            n = (1.0 - 1.0/tau)*n + (safety/tau)*(2.0/acc - 1.0)\n\n        self.Nmcmc_exact = float(min(n, self.maxmcmc))\n        self.Nmcmc = max(safety,int(self.Nmcmc_exact))\n\n        return self.Nmcmc\n")]),
 ('fly-swap', [(S, FLY, "        if self.sub_acceptance > 0.0:\n            update = (safety/tau)*(2.0/self.sub_acceptance - 1.0)\n            self.Nmcmc_exact = (1.0 - 1.0/tau)*self.Nmcmc_exact + update\n        else:\n            self.Nmcmc_exact *= 1.0 + 1.0/tau\n\n        if self.Nmcmc_exact > self.maxmcmc:\n            self.Nmcmc_exact = float(self.maxmcmc)\n        self.Nmcmc = int(self.Nmcmc_exact)\n        if self.Nmcmc < safety:\n            self.Nmcmc = safety\n        return self.Nmcmc\n")]),
 ('fly-helper', [(S, FLY, "        self.Nmcmc_exact = self._moving_average(safety, tau)\n        self.Nmcmc = max(safety,int(self.Nmcmc_exact))\n        return self.Nmcmc\n\n    def _moving_average(self, safety, tau):\n        rate = 1.0/tau\n        if self.sub_acceptance == 0.0:\n            new = (1.0 + rate)*self.Nmcmc_exact\n        else:\n            new = (1.0 - rate)*self.Nmcmc_exact + rate*safety*(2.0/self.sub_acceptance - 1.0)\n        return float(min(new, self.maxmcmc))\n")]),
 ('fly-npclip', [(S, "        self.Nmcmc_exact = float(min(self.Nmcmc_exact,self.maxmcmc))\n", "        self.Nmcmc_exact = float(np.minimum(self.Nmcmc_exact,self.maxmcmc))\n")]),
 ('fly-tau', [(S, "        if tau is None: tau = self.poolsize/safety\n", "        tau = self.poolsize/safety if tau is None else tau\n")]),
 ('est-loop', [(S, EST, "        samples = np.array([x.values for x in self.samples[-5*self.maxmcmc:]])\n        ACL = []\n        for i in range(samples.shape[1]):\n            ACL.append(acl(samples[:,i]))\n")]),
 ('est-T', [(S, EST, "        samples = np.array([x.values for x in self.samples[-5*self.maxmcmc:]])\n        ACL = [acl(c) for c in samples.T]\n")]),
 ('est-window', [(S, EST, "        window = 5*self.maxmcmc\n        recent = self.samples[-window:]\n        samples = np.array([x.values for x in recent])\n        ACL = [acl(samples[:,i]) for i in range(samples.shape[1])]\n")]),
 ('est-cap', [(S, CAP, "        self.Nmcmc = max(int(np.max(ACL)), 1, safety)\n        return self.Nmcmc\n")]),
 ('est-cap2', [(S, CAP, "        longest = int(max(ACL))\n        self.Nmcmc = max(longest, safety)\n        if self.Nmcmc < 1:\n            self.Nmcmc = 1\n        return self.Nmcmc\n")]),
 ('acc-helper', [(S, ACC, "            self._account(sub_accepted, sub_counter)\n"), (S, "    def update_logLmax(self, logL):\n", "    def _account(self, accepted, steps):\n        self.sub_acceptance = float(accepted)/float(steps)\n        self.mcmc_accepted += accepted\n        self.mcmc_counter += steps\n        self.acceptance = float(self.mcmc_accepted)/float(self.mcmc_counter)\n\n    def update_logLmax(self, logL):\n")]),
 ('acc-order', [(S, ACC, "            self.mcmc_counter += sub_counter\n            self.mcmc_accepted += sub_accepted\n            self.acceptance    = self.mcmc_accepted/self.mcmc_counter\n            self.sub_acceptance = sub_accepted/sub_counter\n")]),
 ('acc-sum', [(S, ACC, "            self.mcmc_counter = self.mcmc_counter + sub_counter\n            self.mcmc_accepted = self.mcmc_accepted + sub_accepted\n            self.acceptance    = float(self.mcmc_accepted)/self.mcmc_counter\n            self.sub_acceptance = float(sub_accepted)/sub_counter\n")]),
 ('evo-anon', [(S, EVO, "            next(self.yield_sample(-np.inf))\n            self.estimate_nmcmc_on_the_fly()\n")]),
 ('evo-bound', [(S, EVO, "            chain = self.yield_sample(-np.inf)\n            _, p = next(chain)\n            self.estimate_nmcmc_on_the_fly()\n")]),
 ('rs-comp', [(N2, RS, "    output = [chain[0]]\n    output += [chain[i] for i in range(1,chain.shape[0]) if logpost[i] - logpost[i-1] > np.log(uniform())]\n    output = np.array(output)\n")]),
 ('rs-flip', [(N2, RS, "    output =  [chain[0]]\n    for i in range(1,len(chain)):\n        if np.log(uniform()) < logpost[i] - logpost[i-1]:\n            output.append(chain[i])\n    output = np.array(output)\n")]),
 ('rs-continue', [(N2, RS, "    output =  [chain[0]]\n    for i in range(1,chain.shape[0]):\n        step = logpost[i] - logpost[i-1]\n        if step <= np.log(uniform()):\n            continue\n        output.append(chain[i])\n\n    output = np.array(output)\n")]),
 ('rs-shift', [(N2, RS, "    output =  [chain[0]]\n    for i in range(chain.shape[0]-1):\n        if logpost[i+1] - logpost[i] > np.log(uniform()):\n            output.append(chain[i+1])\n\n    output = np.array(output)\n")]),
 ('rs-mask', [(N2, RS, "    u = uniform(size=chain.shape[0]-1)\n    keep = np.concatenate(([True], np.diff(logpost) > np.log(u)))\n    output = chain[keep]\n")]),
 ('acls-comp', [(N2, ACLL, "    ACL = [acl(chain[n]) for n in chain.dtype.names if n not in ('logL', 'logPrior')]\n    ACL = int(np.round(np.max(ACL)))\n")]),
 ('acls-max', [(N2, ACLL, "    longest = 1\n    for n in chain.dtype.names:\n        if n == 'logL' or n == 'logPrior':\n            continue\n        longest = max(longest, acl(chain[n]))\n    ACL = int(np.round(longest))\n")]),
 ('acls-round', [(N2, "    ACL = int(np.round(np.max(ACL)))\n", "    ACL = int(round(max(ACL)))\n")]),
 ('th-perm', [(N2, TH, "    chain = np.random.permutation(chain[::ACL])\n")]),
 ('th-copy', [(N2, TH, "    thinned = chain[::ACL].copy()\n    np.random.shuffle(thinned)\n    chain = thinned\n")]),
 ('burn-var', [(N2, "    if burnin: chain = chain[chain.shape[0]//2:]\n", "    if burnin:\n        half = len(chain)//2\n        chain = chain[half:]\n")]),
 ('acl-for', [(N2, ACLB, "    T=1\n    for a in autocorrelation(x):\n        if a <= tolerance:\n            break\n        T += 2*a\n    return T\n")]),
 ('acl-true', [(N2, ACLB, "    acf = autocorrelation(x)\n    T, i = 1, 0\n    while True:\n        if i >= len(acf) or not acf[i] > tolerance:\n            return T\n        T = T + 2*acf[i]\n        i += 1\n")]),
 ('ck-ns-helper', [(N, NCK, "                self._periodic_checkpoint()\n"), (N, NCLASS, "    def _periodic_checkpoint(self):\n        if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n            self.checkpoint()\n            self.last_checkpoint_time = time.time()\n\n" + NCLASS)]),
 ('ck-ns-now', [(N, NCK, "                now = time.time()\n                if now > self.last_checkpoint_time + self.manager.periodic_checkpoint_interval:\n                    self.checkpoint()\n                    self.last_checkpoint_time = now\n")]),
 ('ck-ns-elapsed', [(N, NCK, "                elapsed = time.time() - self.last_checkpoint_time\n                interval = self.manager.periodic_checkpoint_interval\n                if not elapsed <= interval:\n                    self.checkpoint()\n                    self.last_checkpoint_time = time.time()\n")]),
 ('ck-ns-order', [(N, NCK, "                if (self.iteration % self.Nlive) < self.manager.nthreads:\n                    self.check_insertion_indices()\n\n" + NCK), (N, "\n                if (self.iteration % self.Nlive) < self.manager.nthreads:\n                    self.check_insertion_indices()\n\n        except", "\n        except")]),
 ('ck-ns-next', [(N, NCK, "                if time.time() > self.next_checkpoint:\n                    self.checkpoint()\n                    self.next_checkpoint = time.time() + self.manager.periodic_checkpoint_interval\n"), (N, "            while self.condition > self.tolerance:\n", "            self.next_checkpoint = time.time() + self.manager.periodic_checkpoint_interval\n            while self.condition > self.tolerance:\n")]),
 ('ck-s-helper', [(S, SCK, "            self._periodic_checkpoint()\n"), (S, SPROD, "    def _periodic_checkpoint(self):\n        due = time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval\n        if due:\n            self.checkpoint()\n            self.last_checkpoint_time = time.time()\n\n" + SPROD)]),
 ('ck-s-end', [(S, SCK, ""), (S, "            self.counter += 1\n", "            self.counter += 1\n" + SCK)]),
 ('ck-s-now', [(S, SCK, "            now = time.time()\n            if now - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n                self.checkpoint()\n                self.last_checkpoint_time = now\n")]),
 ('ck-s-inside', [(S, SCK, SCK.replace("                self.last_checkpoint_time = time.time()\n", "")), (S, "        os.replace(tmp_file, self.resume_file)\n", "        os.replace(tmp_file, self.resume_file)\n        self.last_checkpoint_time = time.time()\n")]),
]
