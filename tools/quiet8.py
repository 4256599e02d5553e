"""behaviour-preserving edits, larger refactorings of all modules"""
N, S, PR, C, N2, M, U = 'NestedSampling.py', 'sampler.py', 'proposal.py', 'cpnest.py', 'nest2pos.py', 'model.py', 'utils.py'
HEAD = """        nreplace = len(self.manager.consumer_pipes)
        logLmin = self.get_worst_n_live_points(nreplace)
        self.state.increment(self.params[nreplace-1].logL, nreplace=nreplace)
        self.nested_samples.extend(self.params[:nreplace])
        logLtmp=[p.logL for p in self.params[:nreplace]]

        # Make sure we are mixing the chains
        for i in np.random.permutation(range(nreplace)): self.manager.consumer_pipes[self.worst[i]].send(self.params[self.worst[i]])
"""
BODY = """                loops += 1
                acceptance, sub_acceptance, self.jumps, proposed = self.manager.consumer_pipes[self.queue_counter].recv()
                if proposed.logL > self.logLmin.value:
                    # Insert the new live point into the ordered list and
                    # return the index at which is was inserted, this will
                    # include the n worst points, so this subtracted next
                    index = self.params.insert_live_point(proposed)
                    # the index is then coverted to a value between [0, 1]
                    # accounting for the variable number of live points
                    self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))
                    self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                    self.accepted += 1
                    break
                else:
                    # resend it to the producer
                    self.manager.consumer_pipes[self.queue_counter].send(self.params[k])
                    self.rejected += 1
"""
GW = """        self.worst = np.arange(n)
        self.logLmin.value = float(self.params[n-1].logL)
        return self.logLmin.value
"""
INC = """        oldZ = self.logZ
        logt=-nreplace/nlive
        Wt = self.logw + logL + logsubexp(0,logt)
        self.logZ = logaddexp(self.logZ,Wt)
"""
FIN = """        self.params.sort(key=attrgetter('logL'))
        for i,p in enumerate(self.params):
            self.state.increment(p.logL,nlive=self.Nlive-i)
            self.nested_samples.append(p)
"""
LOOP = """                self.consume_sample()
                if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                    self.checkpoint()
                    self.last_checkpoint_time = time.time()

                if (self.iteration % self.Nlive) < self.manager.nthreads:
                    self.check_insertion_indices()
"""
CK = """        if not self.insertion_indices:
            return
        if rolling:
            indices = self.insertion_indices[-self.Nlive:]
        else:
            indices = self.insertion_indices
"""
RESET = """                    while i < self.Nlive:
                        acceptance,sub_acceptance,self.jumps,params[i] = self.manager.consumer_pipes[self.queue_counter].recv()
                        if np.isnan(params[i].logL):
                            self.logger.warn("Likelihood function returned NaN for params "+str(params))
                            self.logger.warn("You may want to check your likelihood function")
                        if params[i].logP!=-np.inf and params[i].logL!=-np.inf:
                            self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                            i+=1
                            pbar.update()
                            break
                        # ask the same sampler for another point
                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
"""
MH = """                if newparam.logP-logp_old + self.proposal.log_J > log(random()):
"""
TAIL = """            self.sub_acceptance = float(sub_accepted)/float(sub_counter)
            self.mcmc_accepted += sub_accepted
            self.mcmc_counter  += sub_counter
            self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)

            for p in self.proposal.proposals:
                p.update_time_step(self.acceptance)
                p.update_trajectory_length(self.Nmcmc)
                #print(p.dt,p.L)
"""
QUIET = [
 ('ns-record-method', N, [(HEAD, """        pipes = self.manager.consumer_pipes
        nreplace = len(pipes)
        self.get_worst_n_live_points(nreplace)
        logLtmp = self.record_discarded(nreplace)

        # Make sure we are mixing the chains
        for i in np.random.permutation(nreplace):
            j = self.worst[i]
            pipes[j].send(self.params[j])
"""), ("    def get_worst_n_live_points(self, n):\n", """    def record_discarded(self, n):
        discarded = self.params[:n]
        self.state.increment(discarded[-1].logL, nreplace=n)
        self.nested_samples.extend(discarded)
        return [p.logL for p in discarded]

    def get_worst_n_live_points(self, n):
""")]),
 ('ns-accept-method', N, [(BODY, """                loops += 1
                acceptance, sub_acceptance, self.jumps, proposed = self.manager.consumer_pipes[self.queue_counter].recv()
                if self.accept_replacement(proposed, k, nreplace):
                    break
"""), ("    def get_worst_n_live_points(self, n):\n", """    def accept_replacement(self, proposed, k, nreplace):
        pipes = self.manager.consumer_pipes
        if not proposed.logL > self.logLmin.value:
            pipes[self.queue_counter].send(self.params[k])
            self.rejected += 1
            return False
        index = self.params.insert_live_point(proposed)
        self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))
        self.queue_counter = (self.queue_counter + 1) % len(pipes)
        self.accepted += 1
        return True

    def get_worst_n_live_points(self, n):
""")]),
 ('ns-queue-if', N, [("                    self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)\n                    self.accepted += 1\n", """                    self.queue_counter += 1
                    if self.queue_counter == len(self.manager.consumer_pipes):
                        self.queue_counter = 0
                    self.accepted += 1
""")]),
 ('ns-contour-local', N, [("            while(True):\n                loops += 1\n", "            contour = self.logLmin.value\n            while(True):\n                loops += 1\n"), ("                if proposed.logL > self.logLmin.value:\n", "                if proposed.logL > contour:\n")]),
 ('ns-worst-slice', N, [(GW, """        worst = self.params[:n]
        self.worst = np.arange(len(worst))
        contour = float(worst[-1].logL)
        self.logLmin.value = contour
        return contour
""")]),
 ('ns-range-reversed', N, [("        for k in reversed(self.worst):\n", "        for k in range(nreplace - 1, -1, -1):\n")]),
 ('ns-inc-pieces', N, [(INC, """        oldZ = self.logZ
        logt = -nreplace/float(nlive)
        log_width = self.logw + logsubexp(0, logt)
        Wt = log_width + logL
        self.logZ = logaddexp(oldZ, Wt)
""")]),
 ('ns-inc-width', N, [("        Wt = self.logw + logL + logsubexp(0,logt)\n", "        Wt = self.shell_width(logt) + logL\n"), ("    def increment(self, logL, nlive=None, nreplace=1):\n", """    def shell_width(self, logt):
        return self.logw + logsubexp(0, logt)

    def increment(self, logL, nlive=None, nreplace=1):
""")]),
 ('ns-fin-count', N, [(FIN, """        remaining = sorted(self.params, key=lambda p: p.logL)
        left = self.Nlive
        for p in remaining:
            self.state.increment(p.logL, nlive=left)
            self.nested_samples.append(p)
            left -= 1
""")]),
 ('ns-fin-extend', N, [(FIN, """        self.params.sort(key=attrgetter('logL'))
        for i in range(len(self.params)):
            self.state.increment(self.params[i].logL, nlive=self.Nlive - i)
        self.nested_samples.extend(self.params)
""")]),
 ('ns-loop-due', N, [(LOOP, """                self.consume_sample()
                if self.checkpoint_due():
                    self.checkpoint()
                    self.last_checkpoint_time = time.time()
                since = self.iteration % self.Nlive
                if since < self.manager.nthreads:
                    self.check_insertion_indices()
"""), ("    def nested_sampling_loop(self):\n", """    def checkpoint_due(self):
        elapsed = time.time() - self.last_checkpoint_time
        return elapsed > self.manager.periodic_checkpoint_interval

    def nested_sampling_loop(self):
""")]),
 ('ns-ks-ternary', N, [(CK, """        if len(self.insertion_indices) == 0:
            return
        indices = self.insertion_indices[-self.Nlive:] if rolling else self.insertion_indices
""")]),
 ('ns-reset-point', N, [(RESET, """                    while i < self.Nlive:
                        pipe = self.manager.consumer_pipes[self.queue_counter]
                        acceptance,sub_acceptance,self.jumps,point = pipe.recv()
                        params[i] = point
                        if np.isnan(point.logL):
                            self.logger.warn("Likelihood function returned NaN for params "+str(params))
                            self.logger.warn("You may want to check your likelihood function")
                        if point.logP == -np.inf or point.logL == -np.inf:
                            # ask the same sampler for another point
                            pipe.send(self.model.new_point())
                            continue
                        self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                        i += 1
                        pbar.update()
                        break
""")]),
 ('ns-fields-grouped', N, [("        self.acceptance     = 1.0\n        self.accepted       = 0\n        self.rejected       = 1\n        self.queue_counter  = 0\n", "        self.acceptance, self.accepted, self.rejected = 1.0, 0, 1\n        self.queue_counter  = 0\n")]),
 ('ns-chain-lines', N, [("            f.write('{0:s}\\n'.format(self.model.header().rstrip()))\n            for ns in self.nested_samples:\n                f.write('{0:s}\\n'.format(self.model.strsample(ns).rstrip()))\n", "            f.write(self.model.header().rstrip() + '\\n')\n            for ns in self.nested_samples:\n                line = self.model.strsample(ns).rstrip()\n                f.write(line + '\\n')\n")]),
 ('ns-names-fstring', N, [('        chain_filename = "chain_"+str(self.Nlive)+"_"+str(self.seed)+".txt"\n', '        chain_filename = f"chain_{self.Nlive}_{self.seed}.txt"\n')]),
 ('ns-evidence-fstring', N, [("            f.write('{0:.5f} {1:.5f} {2:.2f}\\n'.format(self.state.logZ, self.logLmax.value, self.state.info))\n", "            state = self.state\n            f.write(f'{state.logZ:.5f} {self.logLmax.value:.5f} {state.info:.2f}\\n')\n")]),
 ('ns-condition-method', N, [("        self.condition = logaddexp(self.state.logZ,self.logLmax.value - self.iteration/(float(self.Nlive))) - self.state.logZ\n", "        self.condition = self.remaining()\n"), ("    def get_worst_n_live_points(self, n):\n", """    def remaining(self):
        logZ = self.state.logZ
        log_volume = -self.iteration/float(self.Nlive)
        return logaddexp(logZ, self.logLmax.value + log_volume) - logZ

    def get_worst_n_live_points(self, n):
""")]),
 ('s-mh-alpha', S, [(MH, """                log_alpha = newparam.logP - logp_old
                log_alpha += self.proposal.log_J
                if log(random()) < log_alpha:
""")]),
 ('s-hmc-adapt', S, [(TAIL, """            self.count_moves(sub_accepted, sub_counter)
            self.adapt_proposals()
"""), ("    def insert_sample(self, p):\n", """    def count_moves(self, accepted, steps):
        self.sub_acceptance = float(accepted)/float(steps)
        self.mcmc_accepted += accepted
        self.mcmc_counter  += steps
        self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)

    def adapt_proposals(self):
        for jump in self.proposal.proposals:
            jump.update_time_step(self.acceptance)
            jump.update_trajectory_length(self.Nmcmc)

    def insert_sample(self, p):
""")]),
 ('s-hmc-two-loops', S, [("            for p in self.proposal.proposals:\n                p.update_time_step(self.acceptance)\n                p.update_trajectory_length(self.Nmcmc)\n", "            jumps = self.proposal.proposals\n            for j in range(len(jumps)):\n                jumps[j].update_time_step(self.acceptance)\n            for j in jumps:\n                j.update_trajectory_length(nmcmc=self.Nmcmc)\n")]),
 ('s-init-mcmc', S, [("        self.initial_mcmc = max(1, maxmcmc//10)\n", "        self.initial_mcmc = maxmcmc//10 if maxmcmc >= 10 else 1\n")]),
 ('s-init-mcmc2', S, [("        self.initial_mcmc = max(1, maxmcmc//10)\n", "        self.initial_mcmc = int(maxmcmc/10) or 1\n")]),
 ('p-traj-local', PR, [("        self.L = self.base_L + np.random.randint(nmcmc,5*nmcmc)\n", "        extra = np.random.randint(low=nmcmc, high=5*nmcmc)\n        self.L = extra + self.base_L\n")]),
 ('p-traj-shift', PR, [("        self.L = self.base_L + np.random.randint(nmcmc,5*nmcmc)\n", "        self.L = self.base_L + nmcmc + np.random.randint(4*nmcmc)\n")]),
 ('p-traj-direct', PR, [("        self.L = self.base_L + np.random.randint(nmcmc,5*nmcmc)\n", "        shortest, longest = self.base_L + nmcmc, self.base_L + 5*nmcmc\n        self.L = np.random.randint(shortest, longest)\n")]),
 ('p-step-mul', PR, [("        new_log_scale = np.log(self.scale) + self.ADAPTATIONSIZE * diff\n        self.scale = np.exp(new_log_scale)\n", "        self.scale *= np.exp(self.ADAPTATIONSIZE * diff)\n")]),
 ('p-base-widths', PR, [("        ranges = [self.prior_bounds[j][1] - self.prior_bounds[j][0] for j in range(self.d)]\n\n        l, h = np.min(ranges), np.max(ranges)\n", "        ranges = [upper - lower for lower, upper in self.prior_bounds[:self.d]]\n        l, h = min(ranges), max(ranges)\n")]),
 ('p-base-order', PR, [("        self.base_L         = 10+int((h/l)*self.d**(1./4.))\n        self.base_dt        = (1.0/self.base_L)*l/h\n", "        steps               = int((h/l)*self.d**0.25) + 10\n        self.base_dt        = l/(h*steps)\n        self.base_L         = steps\n")]),
 ('p-base-sorted', PR, [("        l, h = np.min(ranges), np.max(ranges)\n", "        ordered = sorted(ranges)\n        l, h = ordered[0], ordered[-1]\n")]),
]
QUIET = [(name, [(f, a, b) for a, b in eds]) for name, f, eds in QUIET]
