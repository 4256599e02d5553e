N, S, C, PR, N2, MO, PL, UT, PX = 'NestedSampling.py', 'sampler.py', 'cpnest.py', 'proposal.py', 'nest2pos.py', 'model.py', 'plot.py', 'utils.py', 'parameter.pyx'
QUIET = [
 ('ns-comment', [(N, "        # Increment the state of the evidence integration\n", "        # a comment\n        pass\n")]),
 ('ns-helper-accept', [
  (N, """                    index = self.params.insert_live_point(proposed)
                    # the index is then coverted to a value between [0, 1]
                    # accounting for the variable number of live points
                    self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))
                    self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                    self.accepted += 1
                    break
""", """                    self._accept(proposed, nreplace, k)
                    break
"""),
  (N, """    def get_worst_n_live_points(self, n):
""", """    def _accept(self, proposed, nreplace, k):
        index = self.params.insert_live_point(proposed)
        npoints = self.Nlive - k - 1
        self.insertion_indices.append((index - nreplace) / npoints)
        self.queue_counter = self._next_pipe()
        self.accepted += 1

    def _next_pipe(self):
        return (self.queue_counter + 1) % len(self.manager.consumer_pipes)

    def get_worst_n_live_points(self, n):
""")]),
 ('ns-loop-negated', [
  (N, """                if proposed.logL > self.logLmin.value:
                    # Insert the new live point into the ordered list and
                    # return the index at which is was inserted, this will
                    # include the n worst points, so this subtracted next
                    index = self.params.insert_live_point(proposed)
                    # the index is then coverted to a value between [0, 1]
                    # accounting for the variable number of live points
                    self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))
                    self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                    self.accepted += 1
                    break
                else:
                    # resend it to the producer
                    self.manager.consumer_pipes[self.queue_counter].send(self.params[k])
                    self.rejected += 1
""", """                accepted = proposed.logL > self.logLmin.value
                if not accepted:
                    # resend it to the producer
                    self.rejected += 1
                    self.manager.consumer_pipes[self.queue_counter].send(self.params[k])
                    continue
                index = self.params.insert_live_point(proposed)
                self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))
                self.accepted += 1
                self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                break
""")]),
 ('ns-loop-for-else', [
  (N, "        for i in np.random.permutation(range(nreplace)): self.manager.consumer_pipes[self.worst[i]].send(self.params[self.worst[i]])\n",
  """        order = np.random.permutation(nreplace)
        pipes = self.manager.consumer_pipes
        for i in order:
            w = self.worst[i]
            pipes[w].send(self.params[w])
"""),
  (N, "        logLtmp=[p.logL for p in self.params[:nreplace]]\n", "        logLtmp = [point.logL for point in self.params[:nreplace]]\n"),
  (N, "        for k in reversed(self.worst):\n", "        for k in self.worst[::-1]:\n"),
  (N, "            while(True):\n                loops += 1\n                acceptance", "            while True:\n                loops = loops + 1\n                acceptance"),
 ]),
 ('ns-worst-local', [
  (N, """        self.worst = np.arange(n)
        self.logLmin.value = float(self.params[n-1].logL)
        return self.logLmin.value
""", """        worst_kept = self.params[n-1]
        contour = float(worst_kept.logL)
        self.logLmin.value = contour
        self.worst = np.arange(n)
        return contour
""")]),
 ('ns-finalise-helper', [
  (N, """        self.params.sort(key=attrgetter('logL'))
        for i,p in enumerate(self.params):
            self.state.increment(p.logL,nlive=self.Nlive-i)
            self.nested_samples.append(p)

        # Refine evidence estimate
        self.state.finalise()
        self.logZ = self.state.logZ
        # output the chain and evidence
        self.write_chain_to_file()
        self.write_evidence_to_file()
""", """        self._add_remaining_points()

        # Refine evidence estimate
        self.logZ = self.state.finalise()
        self._write_output()
"""),
  (N, "    def checkpoint(self):\n", """    def _add_remaining_points(self):
        self.params.sort(key=lambda point: point.logL)
        for i in range(len(self.params)):
            p = self.params[i]
            nlive = self.Nlive - i
            self.nested_samples.append(p)
            self.state.increment(p.logL, nlive=nlive)

    def _write_output(self):
        self.write_chain_to_file()
        self.write_evidence_to_file()

    def checkpoint(self):
""")]),
 ('ns-stop-helper', [
  (N, """            self.logLmin.value = np.inf
            self.logLmin.value = np.inf
            for c in self.manager.consumer_pipes:
                c.send(None)
            self.logger.warning""", """            self._stop_workers()
            self.logger.warning"""),
  (N, """        self.logLmin.value = np.inf
        for c in self.manager.consumer_pipes:
            c.send(None)

        # final""", """        self._stop_workers()

        # final"""),
  (N, """            for c in self.manager.consumer_pipes:
                c.send("checkpoint")
""", """            self._broadcast("checkpoint")
"""),
  (N, "    def checkpoint(self):\n", """    def _broadcast(self, message):
        for pipe in self.manager.consumer_pipes:
            pipe.send(message)

    def _stop_workers(self):
        self.logLmin.value = np.inf
        self._broadcast(None)

    def checkpoint(self):
""")]),
 ('ns-loop-while-true', [
  (N, """            while self.condition > self.tolerance:
                self.consume_sample()
                if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                    self.checkpoint()
                    self.last_checkpoint_time = time.time()
""", """            while True:
                if not self.condition > self.tolerance:
                    break
                self.consume_sample()
                elapsed = time.time() - self.last_checkpoint_time
                if elapsed > self.manager.periodic_checkpoint_interval:
                    self.checkpoint()
                    self.last_checkpoint_time = time.time()
""")]),
 ('ns-periodic-helper', [
  (N, """                if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
                    self.checkpoint()
                    self.last_checkpoint_time = time.time()
""", """                self._maybe_checkpoint()
"""),
  (N, "    def checkpoint(self):\n", """    def _checkpoint_due(self):
        return time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval

    def _maybe_checkpoint(self):
        if not self._checkpoint_due():
            return
        self.checkpoint()
        self.last_checkpoint_time = time.time()

    def checkpoint(self):
""")]),
 ('ns-increment', [
  (N, """        oldZ = self.logZ
        logt=-nreplace/nlive
        Wt = self.logw + logL + logsubexp(0,logt)
        self.logZ = logaddexp(self.logZ,Wt)
""", """        logt = -float(nreplace)/nlive
        log_width = self.logw + logsubexp(0, logt)
        Wt = log_width + logL
        oldZ = self.logZ
        self.logZ = np.logaddexp(oldZ, Wt)
"""),
  (N, """        self.logw += logt
        self.iteration += 1
        self.logLs.append(logL)
        self.log_vols.append(self.logw)
""", """        self.iteration += 1
        self.logw = self.logw + logt
        self.log_vols.append(self.logw)
        self.logLs.append(logL)
""")]),
 ('ns-increment-info-helper', [
  (N, """        if np.isfinite(oldZ) and np.isfinite(self.logZ) and np.isfinite(logL):
            self.info = np.exp(Wt - self.logZ)*logL + np.exp(oldZ - self.logZ)*(self.info + oldZ) - self.logZ
            if isnan(self.info):
                self.info = 0
""", """        self._update_information(oldZ, Wt, logL)
"""),
  (N, "    def finalise(self):\n", """    def _update_information(self, oldZ, Wt, logL):
        if not (np.isfinite(oldZ) and np.isfinite(self.logZ) and np.isfinite(logL)):
            return
        new = np.exp(Wt - self.logZ)*logL
        old = np.exp(oldZ - self.logZ)*(self.info + oldZ)
        info = new + old - self.logZ
        self.info = 0 if isnan(info) else info

    def finalise(self):
""")]),
 ('ns-finalise-return', [
  (N, """        from scipy import integrate
        # Trapezoidal rule
        self.logZ = nest2pos.log_integrate_log_trap(np.array(self.logLs), np.array(self.log_vols))
        return self.logZ
""", """        # Trapezoidal rule
        logLs = np.asarray(self.logLs)
        log_vols = np.asarray(self.log_vols)
        self.logZ = nest2pos.log_integrate_log_trap(logLs, log_vols)
        return self.logZ
""")]),
 ('ns-checkpoint-inline', [
  (N, """        tmp_file = self.resume_file + '.tmp'
        with open(tmp_file,"wb") as f:
            pickle.dump(self, f)
        os.replace(tmp_file, self.resume_file)
""", """        partial = "{0}.tmp".format(self.resume_file)
        with open(partial, mode="wb") as out:
            out.write(pickle.dumps(self))
            out.flush()
        os.rename(partial, self.resume_file)
""")]),
 ('s-checkpoint-fsync', [
  (S, """        with open(tmp_file, "wb") as f:
            pickle.dump(self, f)
        os.replace(tmp_file, self.resume_file)
""", """        with open(tmp_file, "wb") as f:
            pickle.dump(self, f, protocol=pickle.HIGHEST_PROTOCOL)
            f.flush()
            os.fsync(f.fileno())
        os.replace(tmp_file, self.resume_file)
""")]),
 ('ns-resume-order', [
  (N, """        obj.manager = manager
        obj.logLmin = obj.manager.logLmin
        obj.logLmin.value = obj.llmin
        obj.logLmax = obj.manager.logLmax
        obj.logLmax.value = obj.llmax
        obj.model = usermodel
        obj.logger = logging.getLogger("cpnest.NestedSampling.NestedSampler")
        del obj.__dict__['llmin']
        del obj.__dict__['llmax']
""", """        obj.model = usermodel
        obj.logger = logging.getLogger("cpnest.NestedSampling.NestedSampler")
        obj.manager = manager
        obj.logLmax = manager.logLmax
        obj.logLmin = manager.logLmin
        obj.logLmax.value = obj.__dict__.pop('llmax')
        obj.logLmin.value = obj.__dict__.pop('llmin')
""")]),
 ('ns-getstate-loop', [
  (N, """        # Remove the unpicklable entries.
        del state['logLmin']
        del state['logLmax']
        del state['manager']
        del state['model']
        del state['logger']
        return state
""", """        # Remove the unpicklable entries.
        for name in ('logLmin', 'logLmax', 'manager', 'model', 'logger'):
            del state[name]
        return state
""")]),
 ('ns-getstate-pop', [
  (N, """        # Remove the unpicklable entries.
        del state['logLmin']
        del state['logLmax']
        del state['manager']
        del state['model']
        del state['logger']
        return state
""", """        # Remove the unpicklable entries.
        state.pop('logger')
        state.pop('model')
        state.pop('manager')
        state.pop('logLmax', None)
        state.pop('logLmin', None)
        return state
""")]),
 ('s-getstate-comp', [
  (S, """        state = self.__dict__.copy()
        # Remove the unpicklable entries.
        del state['model']
        del state['logLmin']
        del state['logLmax']
        del state['manager']
        del state['producer_pipe']
        del state['thread_id']
        del state['logger']
        return state
""", """        unpicklable = ('model', 'logLmin', 'logLmax', 'manager', 'producer_pipe', 'thread_id', 'logger')
        return {k: v for k, v in self.__dict__.items() if k not in unpicklable}
""")]),
 ('s-getstate-dict', [
  (S, """        state = self.__dict__.copy()
        # Remove the unpicklable entries.
        del state['model']
        del state['logLmin']
        del state['logLmax']
        del state['manager']
        del state['producer_pipe']
        del state['thread_id']
        del state['logger']
        return state
""", """        state = dict(self.__dict__)
        for key in ['model', 'logLmin', 'logLmax', 'manager',
                    'producer_pipe', 'thread_id', 'logger']:
            state.pop(key, None)
        return state
""")]),
 ('s-resume-vars', [
  (S, """        obj.manager = manager
        obj.logLmin = obj.manager.logLmin
        obj.logLmax = obj.manager.logLmax
        obj.logger = logging.getLogger("cpnest.sample.Sampler")
        obj.producer_pipe , obj.thread_id = obj.manager.connect_producer()
""", """        logger = logging.getLogger("cpnest.sample.Sampler")
        pipe, thread_id = manager.connect_producer()
        obj.logger = logger
        obj.logLmin, obj.logLmax = manager.logLmin, manager.logLmax
        obj.producer_pipe = pipe
        obj.thread_id = thread_id
        obj.manager = manager
""")]),
 ('ns-reset-while', [
  (N, """                        if params[i].logP!=-np.inf and params[i].logL!=-np.inf:
                            self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                            i+=1
                            pbar.update()
                            break
                        # ask the same sampler for another point
                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
""", """                        if params[i].logP == -np.inf or params[i].logL == -np.inf:
                            # ask the same sampler for another point
                            self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
                            continue
                        i += 1
                        pbar.update()
                        self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                        break
""")]),
 ('ns-reset-helper', [
  (N, """                for j in range(nthreads): self.manager.consumer_pipes[j].send(self.model.new_point())
""", """                for j in range(nthreads):
                    self._request_new_point(j)
"""),
  (N, """                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
""", """                        self._request_new_point(self.queue_counter)
"""),
  (N, """    def reset(self):
        \"\"\"
        Initialise the pool""", """    def _request_new_point(self, j):
        self.manager.consumer_pipes[j].send(self.model.new_point())

    def reset(self):
        \"\"\"
        Initialise the pool""")]),
 ('ns-reset-local-point', [
  (N, """                        acceptance,sub_acceptance,self.jumps,params[i] = self.manager.consumer_pipes[self.queue_counter].recv()
                        if np.isnan(params[i].logL):
                            self.logger.warn("Likelihood function returned NaN for params "+str(params))
                            self.logger.warn("You may want to check your likelihood function")
                        if params[i].logP!=-np.inf and params[i].logL!=-np.inf:
""", """                        _, _, self.jumps, point = self.manager.consumer_pipes[self.queue_counter].recv()
                        params[i] = point
                        if np.isnan(point.logL):
                            self.logger.warning("Likelihood function returned NaN for params "+str(params))
                            self.logger.warning("You may want to check your likelihood function")
                        if point.logP != -np.inf and point.logL != -np.inf:
""")]),
 ('ns-condition', [
  (N, "        self.condition = logaddexp(self.state.logZ,self.logLmax.value - self.iteration/(float(self.Nlive))) - self.state.logZ\n",
  """        logZ = self.state.logZ
        logZ_live = self.logLmax.value - self.iteration/float(self.Nlive)
        self.condition = logaddexp(logZ, logZ_live) - logZ
""")]),
 ('ns-insertion', [
  (N, """        if rolling:
            indices = self.insertion_indices[-self.Nlive:]
        else:
            indices = self.insertion_indices

        D, p = kstest(indices, 'uniform', args=(0, 1))
        if rolling:
            self.logger.warning('Rolling KS test: D={0:.3}, p-value={1:.3}'.format(D, p))
            self.rolling_p.append(p)
        else:
            self.logger.warning('Final KS test: D={0:.3}, p-value={1:.3}'.format(D, p))

        if filename is not None:
            np.savetxt(os.path.join(
                self.output_folder, filename),
                self.insertion_indices,
                newline='\\n',delimiter=' ')
""", """        label = 'Rolling' if rolling else 'Final'
        indices = self.insertion_indices[-self.Nlive:] if rolling else self.insertion_indices
        D, p = kstest(indices, 'uniform', args=(0, 1))
        self.logger.warning('{0} KS test: D={1:.3}, p-value={2:.3}'.format(label, D, p))
        if rolling:
            self.rolling_p.append(p)
        if filename is None:
            return
        path = os.path.join(self.output_folder, filename)
        np.savetxt(path, self.insertion_indices, newline='\\n', delimiter=' ')
""")]),
 ('kol-search', [
  (N, """        index = self.search(item)
        self.insert(index, item)
        self._keys.insert(index, self._key(item))
        return index
""", """        key = self._key(item)
        index = bisect.bisect_right(self._keys, key)
        self._keys.insert(index, key)
        self.insert(index, item)
        return index
"""),
  (N, """        return bisect.bisect(self._keys, self._key(item))
""", """        return bisect.bisect_right(self._keys, self._key(item))
""")]),
 ('kol-slices', [
  (N, """        del self[:n]
        del self._keys[:n]
""", """        self._keys = self._keys[n:]
        self[:] = self[n:]
""")]),
 ('kol-pop-loop', [
  (N, """        del self[:n]
        del self._keys[:n]
""", """        for _ in range(n):
            self.pop(0)
            self._keys.pop(0)
""")]),
 ('kol-init', [
  (N, """        iterable = sorted(iterable, key=key)
        super(KeyOrderedList, self).__init__(iterable)

        self._key = key
        self._keys = [self._key(v) for v in iterable]
""", """        super().__init__(sorted(iterable, key=key))
        self._key = key
        self._keys = list(map(key, self))
""")]),
 ('ns-write-chain', [
  (N, """        with open(self.output_file,"w") as f:
            f.write('{0:s}\\n'.format(self.model.header().rstrip()))
            for ns in self.nested_samples:
                f.write('{0:s}\\n'.format(self.model.strsample(ns).rstrip()))
""", """        lines = [self.model.header().rstrip()]
        lines += [self.model.strsample(ns).rstrip() for ns in self.nested_samples]
        with open(self.output_file, "w") as f:
            for line in lines:
                f.write(line + '\\n')
""")]),
 ('ns-write-chain2', [
  (N, """            f.write('{0:s}\\n'.format(self.model.header().rstrip()))
            for ns in self.nested_samples:
                f.write('{0:s}\\n'.format(self.model.strsample(ns).rstrip()))
""", """            header = self.model.header().rstrip()
            print(header, file=f)
            for sample in self.nested_samples:
                print(self.model.strsample(sample).rstrip(), file=f)
""")]),
 ('ns-write-evidence', [
  (N, """            f.write('#logZ\\tlogLmax\\tH\\n')
            f.write('{0:.5f} {1:.5f} {2:.2f}\\n'.format(self.state.logZ, self.logLmax.value, self.state.info))
""", """            values = (self.state.logZ, self.logLmax.value, self.state.info)
            f.write('#' + '\\t'.join(['logZ', 'logLmax', 'H']) + '\\n')
            f.write('%.5f %.5f %.2f\\n' % values)
""")]),
 ('ns-header-with', [
  (N, """        header              = open(os.path.join(output,'header.txt'),'w')
        header.write('\\t'.join(self.model.names))
        header.write('\\tlogL\\n')
        header.close()
""", """        with open(os.path.join(output, 'header.txt'), 'w') as header:
            header.write('\\t'.join(list(self.model.names) + ['logL']) + '\\n')
""")]),
 ('ns-setup-fstring', [
  (N, """        chain_filename = "chain_"+str(self.Nlive)+"_"+str(self.seed)+".txt"
        output_file   = os.path.join(output,chain_filename)
        evidence_file = os.path.join(output,chain_filename+"_evidence.txt")
        resume_file  = os.path.join(output,"nested_sampler_resume.pkl")

        return output_file, evidence_file, resume_file
""", """        chain_filename = f"chain_{self.Nlive}_{self.seed}.txt"
        names = [chain_filename, chain_filename + "_evidence.txt", "nested_sampler_resume.pkl"]
        output_file, evidence_file, resume_file = [os.path.join(output, name) for name in names]
        return output_file, evidence_file, resume_file
""")]),
]
