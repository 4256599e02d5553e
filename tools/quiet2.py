N, S, C, PR, N2, MO, PL, UT, PX = 'NestedSampling.py', 'sampler.py', 'cpnest.py', 'proposal.py', 'nest2pos.py', 'model.py', 'plot.py', 'utils.py', 'parameter.pyx'

MH_INNER = """            while True:

                sub_counter += 1
                newparam = self.proposal.get_sample(oldparam.copy())
                newparam.logP = self.model.log_prior(newparam)

                if newparam.logP-logp_old + self.proposal.log_J > log(random()):
                    newparam.logL = self.model.log_likelihood(newparam)
                    if newparam.logL > logLmin:
                        self.update_logLmax(newparam.logL)
                        oldparam = newparam.copy()
                        logp_old = newparam.logP
                        sub_accepted+=1
                # append the sample to the array of samples
                self.samples.append(oldparam)

                if (sub_counter >= self.Nmcmc and sub_accepted > 0 ) or sub_counter >= self.maxmcmc:
                    break
"""
MH_BOOK = """            self.evolution_points.append(oldparam)

            self.sub_acceptance = float(sub_accepted)/float(sub_counter)
            self.mcmc_accepted += sub_accepted
            self.mcmc_counter += sub_counter
            self.acceptance    = float(self.mcmc_accepted)/float(self.mcmc_counter)
            # Yield the new sample
"""
HMC_BOOK = """            self.samples.append(oldparam)
            self.evolution_points.append(oldparam)

            self.sub_acceptance = float(sub_accepted)/float(sub_counter)
            self.mcmc_accepted += sub_accepted
            self.mcmc_counter  += sub_counter
            self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)

            for p in"""
SL_BOOK = """            self.evolution_points.append(oldparam)
            self.samples.append(oldparam)
            self.sub_acceptance = float(sub_accepted)/float(sub_counter)
            self.mcmc_accepted += sub_accepted
            self.mcmc_counter  += sub_counter
            self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)

            if self.mcmc"""
RESET1 = """            while True: # Generate an in-bounds sample
                p = self.model.new_point()
                p.logP = self.model.log_prior(p)
                if np.isfinite(p.logP): break
            p.logL=self.model.log_likelihood(p)
            if p.logL is None or not np.isfinite(p.logL):
"""
ANCHOR = "    def update_logLmax(self, logL):\n"
BOOKM = """    def _record(self, sub_accepted, sub_counter):
        self.sub_acceptance = sub_accepted/sub_counter
        self.mcmc_accepted += sub_accepted
        self.mcmc_counter += sub_counter
        self.acceptance = self.mcmc_accepted/self.mcmc_counter

"""
QUIET = [
 ('s-book-helper', [
  (S, MH_BOOK, "            self.evolution_points.append(oldparam)\n            self._record(sub_accepted, sub_counter)\n"),
  (S, HMC_BOOK, "            self.samples.append(oldparam)\n            self.evolution_points.append(oldparam)\n            self._record(sub_accepted, sub_counter)\n\n            for p in"),
  (S, SL_BOOK, "            self.evolution_points.append(oldparam)\n            self.samples.append(oldparam)\n            self._record(sub_accepted, sub_counter)\n\n            if self.mcmc"),
  (S, ANCHOR, BOOKM + ANCHOR)]),
 ('s-mh-flag', [
  (S, MH_INNER, """            finished = False
            while not finished:

                sub_counter += 1
                candidate = self.proposal.get_sample(oldparam.copy())
                candidate.logP = self.model.log_prior(candidate)

                log_ratio = candidate.logP - logp_old + self.proposal.log_J
                if log(random()) < log_ratio:
                    candidate.logL = self.model.log_likelihood(candidate)
                    if logLmin < candidate.logL:
                        self.update_logLmax(candidate.logL)
                        sub_accepted += 1
                        logp_old = candidate.logP
                        oldparam = candidate.copy()
                # append the sample to the array of samples
                self.samples.append(oldparam)

                exhausted = sub_counter >= self.maxmcmc
                moved = sub_accepted > 0 and sub_counter >= self.Nmcmc
                finished = exhausted or moved
""")]),
 ('s-mh-step-helper', [
  (S, MH_INNER, """            while True:

                sub_counter += 1
                newparam = self._propose(oldparam)

                if self._accept(newparam, logp_old, logLmin):
                    self.update_logLmax(newparam.logL)
                    oldparam = newparam.copy()
                    logp_old = newparam.logP
                    sub_accepted += 1
                # append the sample to the array of samples
                self.samples.append(oldparam)

                if self._done(sub_counter, sub_accepted):
                    break
"""),
  (S, """    def yield_sample(self, logLmin):

        while True:

            sub_counter = 0
""", """    def _propose(self, oldparam):
        newparam = self.proposal.get_sample(oldparam.copy())
        newparam.logP = self.model.log_prior(newparam)
        return newparam

    def _accept(self, newparam, logp_old, logLmin):
        if newparam.logP-logp_old + self.proposal.log_J <= log(random()):
            return False
        newparam.logL = self.model.log_likelihood(newparam)
        return newparam.logL > logLmin

    def _done(self, counter, accepted):
        if counter >= self.maxmcmc:
            return True
        return counter >= self.Nmcmc and accepted > 0

    def yield_sample(self, logLmin):

        while True:

            sub_counter = 0
""")]),
 ('s-mh-nested-and', [
  (S, """                    if newparam.logL > logLmin:
                        self.update_logLmax(newparam.logL)
                        oldparam = newparam.copy()
                        logp_old = newparam.logP
                        sub_accepted+=1
                # append""", """                    if not newparam.logL > logLmin:
                        pass
                    else:
                        oldparam = newparam.copy()
                        logp_old = oldparam.logP
                        sub_accepted = sub_accepted + 1
                        self.update_logLmax(oldparam.logL)
                # append"""),
  (S, """            sub_counter = 0
            sub_accepted = 0
            oldparam = self.evolution_points.popleft()
            logp_old = self.model.log_prior(oldparam)
""", """            sub_counter, sub_accepted = 0, 0
            oldparam = self.evolution_points.popleft()
            logp_old = self.model.log_prior(oldparam)
""")]),
 ('s-mh-np', [
  (S, "                if newparam.logP-logp_old + self.proposal.log_J > log(random()):\n                    newparam.logL",
      "                logu = np.log(np.random.random())\n                if self.proposal.log_J + newparam.logP - logp_old > logu:\n                    newparam.logL")]),
 ('s-hmc-for', [
  (S, """            while sub_accepted == 0:

                sub_counter += 1
                newparam     = self.proposal.get_sample(oldparam.copy(), logLmin = logLmin)

                if self.proposal.log_J > np.log(random()):

                    if newparam.logL > logLmin:
                        self.update_logLmax(newparam.logL)
                        oldparam        = newparam.copy()
                        sub_accepted   += 1
""", """            while True:

                sub_counter += 1
                newparam = self.proposal.get_sample(oldparam.copy(), logLmin=logLmin)

                if self.proposal.log_J > log(random()) and newparam.logL > logLmin:
                    self.update_logLmax(newparam.logL)
                    oldparam = newparam.copy()
                    sub_accepted = 1
                    break
""")]),
 ('s-hmc-tune-helper', [
  (S, """            for p in self.proposal.proposals:
                p.update_time_step(self.acceptance)
                p.update_trajectory_length(self.Nmcmc)
                #print(p.dt,p.L)
""", """            self._tune()
"""),
  (S, "    def insert_sample(self, p):\n", """    def _tune(self):
        acceptance, nmcmc = self.acceptance, self.Nmcmc
        for jump in self.proposal.proposals:
            jump.update_trajectory_length(nmcmc)
            jump.update_time_step(acceptance)

    def insert_sample(self, p):
""")]),
 ('s-slice-bounds', [
  (S, """        self.L  = - np.random.uniform(0.0,1.0)
        self.R  = self.L + 1.0
        self.Ne = 0.0
        self.Nc = 0.0
""", """        left = -np.random.uniform(0.0, 1.0)
        self.L, self.R = left, 1.0 + left
        self.Ne = self.Nc = 0.0
"""),
  (S, """        self.L  = self.L - 1.0
        self.Ne = self.Ne + 1
""", """        self.Ne += 1
        self.L -= 1.0
""")]),
 ('s-slice-out-helper', [
  (S, """                    if self.model.in_bounds(parameter_left):
                        if Yp > self.model.log_prior(parameter_left):
                            break
                        else:
                            self.increase_left_boundary()
                            J -= 1
                    # if we get out of bounds, break out
                    else:
                        break
""", """                    if self._outside(parameter_left, Yp):
                        break
                    self.increase_left_boundary()
                    J -= 1
"""),
  (S, """                    if self.model.in_bounds(parameter_right):

                        if Yp > self.model.log_prior(parameter_right):
                            break
                        else:
                            self.increase_right_boundary()
                            K -= 1
                    # if we get out of bounds, break out
                    else:
                        break
""", """                    if self._outside(parameter_right, Yp):
                        break
                    self.increase_right_boundary()
                    K -= 1
"""),
  (S, """    def adapt_length_scale(self):
""", """    def _outside(self, point, level):
        return not self.model.in_bounds(point) or level > self.model.log_prior(point)

    def adapt_length_scale(self):
""")]),
 ('s-slice-flat', [
  (S, """                    if self.model.in_bounds(parameter_left):
                        if Yp > self.model.log_prior(parameter_left):
                            break
                        else:
                            self.increase_left_boundary()
                            J -= 1
                    # if we get out of bounds, break out
                    else:
                        break
""", """                    if not self.model.in_bounds(parameter_left):
                        break
                    if self.model.log_prior(parameter_left) < Yp:
                        break
                    J = J - 1
                    self.increase_left_boundary()
"""),
  (S, """                    if Xprime < 0.0:
                        self.L = Xprime
                        self.Nc = self.Nc + 1
                    elif Xprime > 0.0:
                        self.R = Xprime
                        self.Nc = self.Nc + 1
""", """                    if Xprime != 0.0:
                        if Xprime < 0.0:
                            self.L = Xprime
                        else:
                            self.R = Xprime
                        self.Nc += 1
""")]),
 ('s-slice-for', [
  (S, """                slice = 0
                while slice < self.max_slices:
""", """                for _ in range(self.max_slices):
"""),
  (S, """                        self.Nc = self.Nc + 1

                    slice += 1
""", """                        self.Nc = self.Nc + 1
""")]),
 ('s-slice-start-for', [
  (S, """            j = 0
            while j < self.poolsize:
                oldparam        = self.evolution_points.popleft()
                if oldparam.logL > logLmin:
                    break
                self.evolution_points.append(oldparam)
                j += 1
""", """            for _ in range(self.poolsize):
                oldparam = self.evolution_points.popleft()
                if oldparam.logL > logLmin:
                    break
                self.evolution_points.append(oldparam)
""")]),
 ('s-slice-end', [
  (S, """                if sub_counter > self.Nmcmc and sub_accepted > 0:
                    break

                if sub_counter > self.maxmcmc:
                    break
""", """                if sub_counter > self.maxmcmc or (sub_accepted > 0 and sub_counter > self.Nmcmc):
                    break
""")]),
 ('s-slice-adapt', [
  (S, """        Ne = max(1,self.Ne)
        Nc = max(1,self.Nc)
        ratio = Ne/(Ne+Nc)
        self.mu *= 2*ratio
""", """        expansions, contractions = max(self.Ne, 1), max(self.Nc, 1)
        self.mu = self.mu * 2.0 * expansions / (expansions + contractions)
""")]),
 ('s-reset-helper', [
  (S, RESET1, """            p = self._draw_point()
            if p.logL is None or not np.isfinite(p.logL):
"""),
  (S, "    def estimate_nmcmc_on_the_fly(self", """    def _draw_point(self):
        p = self.model.new_point()
        p.logP = self.model.log_prior(p)
        while not np.isfinite(p.logP):
            p = self.model.new_point()
            p.logP = self.model.log_prior(p)
        p.logL = self.model.log_likelihood(p)
        return p

    def estimate_nmcmc_on_the_fly(self""")]),
 ('s-reset-evolve', [
  (S, """            _, p = next(self.yield_sample(-np.inf))
            self.estimate_nmcmc_on_the_fly()
""", """            next(self.yield_sample(-np.inf))
            self.estimate_nmcmc_on_the_fly()
"""),
  (S, """            prior_samples = rfn.stack_arrays([prior_samples[j].asnparray()
                for j in range(0,len(prior_samples))],usemask=False)
""", """            prior_samples = rfn.stack_arrays([sample.asnparray() for sample in prior_samples], usemask=False)
"""),
  (S, """            np.savetxt(os.path.join(self.output,'prior_samples_%s.dat'%os.getpid()),
                       prior_samples.ravel(),header=' '.join(prior_samples.dtype.names),
""", """            filename = os.path.join(self.output, 'prior_samples_{}.dat'.format(os.getpid()))
            np.savetxt(filename, prior_samples.ravel(),header=' '.join(prior_samples.dtype.names),
""")]),
 ('s-reset-save-helper', [
  (S, """            prior_samples = rfn.stack_arrays([prior_samples[j].asnparray()
                for j in range(0,len(prior_samples))],usemask=False)
            np.savetxt(os.path.join(self.output,'prior_samples_%s.dat'%os.getpid()),
                       prior_samples.ravel(),header=' '.join(prior_samples.dtype.names),
                       newline='\\n',delimiter=' ')
""", """            prior_samples = self._save(prior_samples, 'prior_samples_%s.dat'%os.getpid())
"""),
  (S, """            self.mcmc_samples = rfn.stack_arrays([self.samples[j].asnparray()
                                                  for j in range(0,len(self.samples))],usemask=False)
            np.savetxt(os.path.join(self.output,'mcmc_chain_%s.dat'%os.getpid()),
                       self.mcmc_samples.ravel(),header=' '.join(self.mcmc_samples.dtype.names),
                       newline='\\n',delimiter=' ')
""", """            self.mcmc_samples = self._save(self.samples, 'mcmc_chain_%s.dat'%os.getpid())
"""),
  (S, "    def estimate_nmcmc_on_the_fly(self", """    def _save(self, points, name):
        table = rfn.stack_arrays([p.asnparray() for p in points], usemask=False)
        np.savetxt(os.path.join(self.output, name), table.ravel(),
                   header=' '.join(table.dtype.names), newline='\\n', delimiter=' ')
        return table

    def estimate_nmcmc_on_the_fly(self""")]),
 ('s-otf', [
  (S, """        if tau is None: tau = self.poolsize/safety

        if self.sub_acceptance == 0.0:
            self.Nmcmc_exact = (1.0 + 1.0/tau)*self.Nmcmc_exact
        else:
            self.Nmcmc_exact = (1.0 - 1.0/tau)*self.Nmcmc_exact + (safety/tau)*(2.0/self.sub_acceptance - 1.0)

        self.Nmcmc_exact = float(min(self.Nmcmc_exact,self.maxmcmc))
        self.Nmcmc = max(safety,int(self.Nmcmc_exact))
""", """        if tau is None:
            tau = self.poolsize/safety

        exact = self.Nmcmc_exact
        if self.sub_acceptance > 0.0:
            acl_estimate = 2.0/self.sub_acceptance - 1.0
            exact = (1.0 - 1.0/tau)*exact + safety*acl_estimate/tau
        else:
            exact += exact/tau

        self.Nmcmc_exact = float(exact) if exact < self.maxmcmc else float(self.maxmcmc)
        self.Nmcmc = int(self.Nmcmc_exact)
        if self.Nmcmc < safety:
            self.Nmcmc = safety
""")]),
 ('s-nmcmc', [
  (S, """        ACL = []
        samples = np.array([x.values for x in self.samples[-5*self.maxmcmc:]])
        # compute the ACL on 5 times the maxmcmc set of samples
        ACL = [acl(samples[:,i]) for i in range(samples.shape[1])]
""", """        samples = np.array([x.values for x in self.samples[-5*self.maxmcmc:]])
        # compute the ACL on 5 times the maxmcmc set of samples
        ACL = []
        for column in samples.T:
            ACL.append(acl(column))
"""),
  (S, """        self.Nmcmc = int(np.max(ACL))
        if self.Nmcmc < 1:
            self.Nmcmc = 1
        if self.Nmcmc < safety:
            self.Nmcmc = safety
""", """        self.Nmcmc = max(1, safety, int(max(ACL)))
"""),
  (S, """            for i in range(len(self.model.names)):
                self.logger.info("Sampler {0} -- ACL({1})  = {2}".format(os.getpid(),self.model.names[i],ACL[i]))
""", """            for name, length in zip(self.model.names, ACL):
                self.logger.info("Sampler {0} -- ACL({1})  = {2}".format(os.getpid(), name, length))
""")]),
 ('s-logLmax-if', [
  (S, """        with self.logLmax.get_lock():
            self.logLmax.value = max(self.logLmax.value, logL)
""", """        with self.logLmax.get_lock():
            if logL > self.logLmax.value:
                self.logLmax.value = logL
""")]),
 ('s-logLmax-acquire', [
  (S, """        with self.logLmax.get_lock():
            self.logLmax.value = max(self.logLmax.value, logL)
""", """        lock = self.logLmax.get_lock()
        lock.acquire()
        try:
            self.logLmax.value = max(logL, self.logLmax.value)
        finally:
            lock.release()
""")]),
 ('s-produce-helpers', [
  (S, """                self.evolution_points.append(p)
                (Nmcmc, outParam) = next(self.yield_sample(logLmin))
                # Send the sample to the Nested Sampler
                self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))
""", """                self._serve(p, logLmin)
"""),
  (S, """            # Update the ensemble every now and again
            if (self.counter%(self.poolsize//4))==0:
                self.proposal.set_ensemble(self.evolution_points)
                self.estimate_nmcmc()
""", """            self._update_ensemble()
"""),
  (S, """            if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                self.checkpoint()
                self.last_checkpoint_time = time.time()
""", """            self._periodic_checkpoint()
"""),
  (S, """    def checkpoint(self):
        \"\"\"
        Checkpoint its""", """    def _periodic_checkpoint(self):
        elapsed = time.time() - self.last_checkpoint_time
        if elapsed > self.manager.periodic_checkpoint_interval:
            self.checkpoint()
            self.last_checkpoint_time = time.time()

    def _update_ensemble(self):
        if self.counter % (self.poolsize//4) != 0:
            return
        self.proposal.set_ensemble(self.evolution_points)
        self.estimate_nmcmc()

    def _serve(self, start, contour):
        self.evolution_points.append(start)
        nsteps, sample = next(self.yield_sample(contour))
        self.producer_pipe.send((self.acceptance, self.sub_acceptance, nsteps, sample))

    def checkpoint(self):
        \"\"\"
        Checkpoint its""")]),
 ('s-produce-finished', [
  (S, """            logLmin = self.logLmin.value
            if logLmin==np.inf:
                break

            if time""", """            logLmin = self.logLmin.value
            if self._finished(logLmin):
                break

            if time"""),
  (S, """                logLmin = self.logLmin.value
                if logLmin==np.inf:
                    break

                self.evo""", """                logLmin = self.logLmin.value
                if self._finished(logLmin):
                    break

                self.evo"""),
  (S, """    def checkpoint(self):
        \"\"\"
        Checkpoint its""", """    @staticmethod
    def _finished(contour):
        return contour == np.inf

    def checkpoint(self):
        \"\"\"
        Checkpoint its""")]),
 ('s-produce-inverted', [
  (S, """            if self.producer_pipe.poll():

                p = self.producer_pipe.recv()

                if p is None:
                    break
                if p == "checkpoint":
                    self.checkpoint()
                    sys.exit(130)

                # the request may be for a newer contour
                logLmin = self.logLmin.value
                if logLmin==np.inf:
                    break

                self.evolution_points.append(p)
                (Nmcmc, outParam) = next(self.yield_sample(logLmin))
                # Send the sample to the Nested Sampler
                self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))

            # otherwise, keep on sampling from the previous boundary
            else:
                _, _ = next(self.yield_sample(logLmin))
""", """            pipe = self.producer_pipe
            if not pipe.poll():
                # keep on sampling from the previous boundary
                next(self.yield_sample(logLmin))
            else:
                request = pipe.recv()

                if request is None:
                    break
                if request == "checkpoint":
                    self.checkpoint()
                    sys.exit(130)

                # the request may be for a newer contour
                logLmin = self.logLmin.value
                if logLmin == np.inf:
                    break

                self.evolution_points.append(request)
                nsteps, sample = next(self.yield_sample(logLmin))
                reply = (self.acceptance, self.sub_acceptance, nsteps, sample)
                pipe.send(reply)
""")]),
 ('s-produce-counter', [
  (S, "        self.counter=1\n        __checkpoint_flag=False\n", "        self.counter = 1\n"),
  (S, "            if (self.counter%(self.poolsize//4))==0:\n", "            if not self.counter % (self.poolsize//4):\n"),
  (S, "            self.counter += 1\n", "            self.counter = self.counter + 1\n")]),
 ('s-generator-once', [
  (S, """            _, p = next(self.yield_sample(-np.inf))
            self.estimate_nmcmc_on_the_fly()
""", """            sampler = self.yield_sample(-np.inf)
            nsteps, p = next(sampler)
            self.estimate_nmcmc_on_the_fly()
""")]),
 ('s-resume-setters', [
  (S, """        obj.model   = model
        if hasattr(obj.proposal, 'set_model'):
            obj.proposal.set_model(model)
        obj.manager = manager
        obj.logLmin = obj.manager.logLmin
        obj.logLmax = obj.manager.logLmax
        obj.logger = logging.getLogger("cpnest.sample.Sampler")
        obj.producer_pipe , obj.thread_id = obj.manager.connect_producer()
""", """        obj._attach(manager, model)
        obj.logger = logging.getLogger("cpnest.sample.Sampler")
"""),
  (S, """    def __getstate__(self):
        state = self.__dict__.copy()
        # Remove the unpicklable entries.
        del state['model']
        del state['logLmin']
        del state['logLmax']
        del state['manager']
        del state['producer_pipe']
        del state['thread_id']
        del state['logger']
        return state
""", """    def _attach(self, manager, model):
        self.manager = manager
        self.logLmin, self.logLmax = manager.logLmin, manager.logLmax
        self.producer_pipe, self.thread_id = manager.connect_producer()
        self.model = model
        if hasattr(self.proposal, 'set_model'):
            self.proposal.set_model(model)

    def __getstate__(self):
        state = dict(self.__dict__)
        # Remove the unpicklable entries.
        for key in ('model', 'logLmin', 'logLmax', 'manager', 'producer_pipe', 'thread_id', 'logger'):
            state.pop(key)
        return state
""")]),
 ('s-init-reorder', [
  (S, """        self.seed = seed
        self.model = model
        self.initial_mcmc = maxmcmc//10
        self.maxmcmc = maxmcmc
        self.resume_file = resume_file
        self.manager = manager
        self.logLmin = self.manager.logLmin
        self.logLmax = self.manager.logLmax
""", """        self.manager = manager
        self.logLmin, self.logLmax = manager.logLmin, manager.logLmax
        self.resume_file = resume_file
        self.model = model
        self.seed = seed
        self.maxmcmc = maxmcmc
        self.initial_mcmc = self.maxmcmc//10
"""),
  (S, """        if proposal is None:
            self.proposal = DefaultProposalCycle()
        else:
            self.proposal = proposal
""", """        self.proposal = proposal if proposal is not None else DefaultProposalCycle()
""")]),
 ('s-insert-sample', [
  (S, """        p  = self.evolution_points.pop()
        self.evolution_points.append(p)
        self.evolution_points.rotate(-k)
""", """        p = self.evolution_points[-1]
        self.evolution_points.rotate(-k)
""")]),
 ('s-slice-direction', [
  (S, """                if not(isinstance(direction_vector,parameter.LivePoint)):
                    direction_vector = parameter.LivePoint(oldparam.names,d=array.array('d',direction_vector.tolist()))
""", """                if not isinstance(direction_vector, parameter.LivePoint):
                    components = array.array('d', direction_vector.tolist())
                    direction_vector = parameter.LivePoint(oldparam.names, d=components)
"""),
  (S, """                J = np.floor(self.max_steps_out*np.random.uniform(0,1))
                K = (self.max_steps_out-1)-J
""", """                J = np.floor(np.random.uniform(0, 1)*self.max_steps_out)
                K = self.max_steps_out - J - 1
"""),
  (S, """                    newparam      = direction_vector * Xprime + oldparam
""", """                    newparam      = oldparam + direction_vector * Xprime
""")]),
]
