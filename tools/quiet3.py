N, S, C, PR, N2, MO, PL, UT, PX = 'NestedSampling.py', 'sampler.py', 'cpnest.py', 'proposal.py', 'nest2pos.py', 'model.py', 'plot.py', 'utils.py', 'parameter.pyx'
POS1 = """                u,l = self.prior_bounds[j][1], self.prior_bounds[j][0]
                q[k] += self.dt * p[j] * self.inverse_mass[j]
                # check and reflect against the bounds
                # of the allowed parameter range
                while q[k] <= l or q[k] >= u:
                    if q[k] > u:
                        q[k] = u - (q[k] - u)
                        p[j] *= -1
                    if q[k] < l:
                        q[k] = l + (l - q[k])
                        p[j] *= -1
"""
POS2 = """            u, l  = self.prior_bounds[j][1], self.prior_bounds[j][0]
            q[k]  += self.dt * p[j] * self.inverse_mass[j]
            # check and reflect against the bounds
            # of the allowed parameter range
            while q[k] < l or q[k] > u:
                if q[k] > u:
                    q[k] = u - (q[k] - u)
                    p[j] *= -1
                if q[k] < l:
                    q[k] = l + (l - q[k])
                    p[j] *= -1
        return p, q
"""
FWD = """        # evolve forward in time
        i = 0
        p, q, reflected = self.evolve_trajectory_one_step_momentum(p0.copy(), q0.copy(), logLmin, half = True)
        while (i < self.L):
            p, q            = self.evolve_trajectory_one_step_position(p, q)
            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)
            trajectory.append((q.copy(),p.copy()))
            i += 1
"""
BWD = """        # evolve backward in time
        i = 0
        p, q, reflected = self.evolve_trajectory_one_step_momentum(-p0.copy(), q0.copy(), logLmin, half = True)
        while (i < self.L):
            p, q            = self.evolve_trajectory_one_step_position(p, q)
            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)
            trajectory.append((q.copy(),p.copy()))
            i += 1
"""
EIG = """        n=len(self.ensemble)
        dim = self.ensemble[0].dimension
        cov_array = np.zeros((dim,n))
        if dim == 1:
            name=self.ensemble[0].names[0]
            self.eigen_values = np.atleast_1d(np.var([self.ensemble[j][name] for j in range(n)]))
            self.covariance = self.eigen_values
            self.eigen_vectors = np.eye(1)
        else:
            for i,name in enumerate(self.ensemble[0].names):
                for j in range(n): cov_array[i,j] = self.ensemble[j][name]
            self.covariance = np.cov(cov_array)
            self.eigen_values,self.eigen_vectors = np.linalg.eigh(self.covariance)
"""
MEANCOV = """        n   = len(self.ensemble)
        dim = self.ensemble[0].dimension
        cov_array = np.zeros((dim,n))
        if dim == 1:
            name=self.ensemble[0].names[0]
            self.covariance = np.atleast_2d(np.var([self.ensemble[j][name] for j in range(n)]))
            self.mean       = np.atleast_1d(np.mean([self.ensemble[j][name] for j in range(n)]))
        else:
            for i,name in enumerate(self.ensemble[0].names):
                for j in range(n): cov_array[i,j] = self.ensemble[j][name]
            self.covariance = np.cov(cov_array)
            self.mean       = np.mean(cov_array,axis=1)
"""
QUIET = [
 ('p-weights', [
  (PR, """        norm = sum(weights)
        for i, _ in enumerate(weights):
            weights[i]=weights[i] / norm
        return weights
""", """        norm = sum(weights)
        return [w / norm for w in weights]
""")]),
 ('p-weights-range', [
  (PR, """        norm = sum(weights)
        for i, _ in enumerate(weights):
            weights[i]=weights[i] / norm
        return weights
""", """        total = float(sum(weights))
        for i in range(len(weights)):
            weights[i] /= total
        return weights
""")]),
 ('p-cycle-next', [
  (PR, """        self.idx = (self.idx + 1) % self.N
        p = self.cycle[self.idx]
        new = p.get_sample(old,**kwargs)
        self.log_J = p.log_J
        return new
""", """        jump = self._next_jump()
        new = jump.get_sample(old, **kwargs)
        self.log_J = jump.log_J
        return new

    def _next_jump(self):
        self.idx = (self.idx + 1) % self.N
        return self.cycle[self.idx]
"""),
  (PR, """        self.idx = (self.idx + 1) % self.N
        p = self.cycle[self.idx]
        new = p.get_direction(mu = mu, **kwargs)
        self.log_J = p.log_J
        return new
""", """        jump = self._next_jump()
        direction = jump.get_direction(mu=mu, **kwargs)
        self.log_J = jump.log_J
        return direction
""")]),
 ('p-cycle-set', [
  (PR, """        self.cycle = np.random.choice(self.proposals, size=self.cyclelength,
                                      p=self.weights, replace=True)
        self.N=len(self.cycle)
""", """        indices = np.random.choice(len(self.proposals), size=self.cyclelength, p=self.weights)
        self.cycle = [self.proposals[i] for i in indices]
        self.N = self.cyclelength
""")]),
 ('p-cycle-ensemble', [
  (PR, """        self.ensemble=ensemble
        for p in self.proposals:
            if isinstance(p,EnsembleProposal):
                p.set_ensemble(self.ensemble)
""", """        self.ensemble = ensemble
        ensemble_jumps = [jump for jump in self.proposals if isinstance(jump, EnsembleProposal)]
        for jump in ensemble_jumps:
            jump.set_ensemble(ensemble)
""")]),
 ('p-cycle-add', [
  (PR, """        self.proposals = self.proposals + [proposal]
        self.weights = self.weights + [weight]
        self.set_cycle()
""", """        proposals, weights = list(self.proposals), list(self.weights)
        proposals.append(proposal)
        weights.append(weight)
        self.proposals = proposals
        self.weights = weights
        self.set_cycle()
""")]),
 ('p-slice-diff', [
  (PR, """        subset = sample(list(self.ensemble),2)
        direction = reduce(type(self.ensemble[0]).__sub__,subset)
        return direction * mu
""", """        first, second = sample(list(self.ensemble), 2)
        return (first - second) * mu
""")]),
 ('p-slice-gauss', [
  (PR, """        direction  = np.random.normal(0.0,1.0,size=len(self.ensemble[0].names))
        direction /= np.linalg.norm(direction)
        return direction * mu
""", """        dimension = self.ensemble[0].dimension
        direction = np.random.normal(0.0, 1.0, size=dimension)
        length = np.linalg.norm(direction)
        return mu * (direction / length)
""")]),
 ('p-slice-corr', [
  (PR, MEANCOV, """        names = self.ensemble[0].names
        cov_array = np.array([[p[name] for p in self.ensemble] for name in names])
        self.mean = np.mean(cov_array, axis=1)
        if len(names) == 1:
            self.covariance = np.atleast_2d(np.var(cov_array))
        else:
            self.covariance = np.cov(cov_array)
""")]),
 ('p-eig-helper', [
  (PR, EIG, """        cov_array = self._as_array()
        if cov_array.shape[0] == 1:
            self.eigen_values = np.atleast_1d(np.var(cov_array))
            self.covariance = self.eigen_values
            self.eigen_vectors = np.eye(1)
        else:
            self.covariance = np.cov(cov_array)
            self.eigen_values, self.eigen_vectors = np.linalg.eigh(self.covariance)
"""),
  (PR, MEANCOV, """        cov_array = self._as_array()
        if cov_array.shape[0] == 1:
            self.covariance = np.atleast_2d(np.var(cov_array))
        else:
            self.covariance = np.cov(cov_array)
        self.mean = np.mean(cov_array, axis=1)
"""),
  (PR, """    ensemble=None
    def set_ensemble(self,ensemble):
        \"\"\"
        Set the""", """    ensemble=None
    def _as_array(self):
        names = self.ensemble[0].names
        n = len(self.ensemble)
        table = np.zeros((len(names), n))
        for i, name in enumerate(names):
            for j in range(n):
                table[i, j] = self.ensemble[j][name]
        return table

    def set_ensemble(self,ensemble):
        \"\"\"
        Set the""")]),
 ('p-eig-rename', [
  (PR, EIG, """        first = self.ensemble[0]
        npoints = len(self.ensemble)
        if first.dimension == 1:
            values = [point[first.names[0]] for point in self.ensemble]
            self.covariance = self.eigen_values = np.atleast_1d(np.var(values))
            self.eigen_vectors = np.eye(1)
            return
        table = np.zeros((first.dimension, npoints))
        for j, point in enumerate(self.ensemble):
            for i, name in enumerate(first.names):
                table[i, j] = point[name]
        self.covariance = np.cov(table)
        values, vectors = np.linalg.eigh(self.covariance)
        self.eigen_values = values
        self.eigen_vectors = vectors
""")]),
 ('p-eig-jump', [
  (PR, """        jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0,1)
        for k,n in enumerate(out.names):
            out[n]+=jumpsize*self.eigen_vectors[k,i]
        return out
""", """        scale = np.sqrt(abs(self.eigen_values[i]))
        step = scale*gauss(0,1)
        direction = self.eigen_vectors[:,i]
        for k in range(out.dimension):
            name = out.names[k]
            out[name] = out[name] + step*direction[k]
        return out
""")]),
 ('p-eig-zip', [
  (PR, """        for k,n in enumerate(out.names):
            out[n]+=jumpsize*self.eigen_vectors[k,i]
        return out
""", """        for n, component in zip(out.names, self.eigen_vectors[:,i]):
            out[n] += jumpsize*component
        return out
""")]),
 ('p-walk', [
  (PR, """        center_of_mass = reduce(type(old).__add__,subset)/float(self.Npoints)
        out = old
        for x in subset:
            out += (x - center_of_mass)*gauss(0,1)
        return out
""", """        center_of_mass = subset[0]
        for x in subset[1:]:
            center_of_mass = center_of_mass + x
        center_of_mass = center_of_mass/float(self.Npoints)
        new = old
        for x in subset:
            step = (x - center_of_mass)*gauss(0,1)
            new = new + step
        return new
""")]),
 ('p-walk-reduce', [
  (PR, """        center_of_mass = reduce(type(old).__add__,subset)/float(self.Npoints)
        out = old
        for x in subset:
            out += (x - center_of_mass)*gauss(0,1)
        return out
""", """        mean = reduce(lambda a, b: a + b, subset)/float(self.Npoints)
        for i in range(self.Npoints):
            old = old + (subset[i] - mean)*gauss(0,1)
        return old
""")]),
 ('p-stretch', [
  (PR, """        x = uniform(-1,1)*log(scale)
        Z = exp(x)
        out = a + (old - a)*Z
        # Jacobian
        self.log_J = out.dimension * x
        return out
""", """        logz = log(scale)*uniform(-1,1)
        out = (old - a)*exp(logz) + a
        # Jacobian
        self.log_J = len(out.names) * logz
        return out
""")]),
 ('p-stretch2', [
  (PR, """        x = uniform(-1,1)*log(scale)
        Z = exp(x)
        out = a + (old - a)*Z
""", """        x = uniform(-log(scale), log(scale))
        out = a + (old - a)*exp(x)
""")]),
 ('p-de', [
  (PR, """        a,b = sample(list(self.ensemble),2)
        sigma = 1e-4 # scatter around difference vector by this factor
        out = old + (b-a)*gauss(1.0,sigma)
        return out
""", """        pair = sample(list(self.ensemble), 2)
        difference = pair[1] - pair[0]
        return old + difference*gauss(1.0, 1e-4)
""")]),
 ('p-default-lists', [
  (PR, """        proposals = [EnsembleWalk(),
                     EnsembleStretch(),
                     DifferentialEvolution(),
                     EnsembleEigenVector()]
        weights = [5,
                   5,
                   10,
                   10]
        super(DefaultProposalCycle,self).__init__(proposals, weights)
""", """        jumps = [(EnsembleWalk, 5),
                 (EnsembleStretch, 5),
                 (DifferentialEvolution, 10),
                 (EnsembleEigenVector, 10)]
        super(DefaultProposalCycle,self).__init__([jump() for jump, _ in jumps], [weight for _, weight in jumps])
""")]),
 ('p-reflect-helper', [
  (PR, POS2, """            u, l  = self.prior_bounds[j][1], self.prior_bounds[j][0]
            q[k]  += self.dt * p[j] * self.inverse_mass[j]
            self._reflect(p, q, j, k, l, u)
        return p, q

    def _reflect(self, p, q, j, k, l, u):
        # check and reflect against the bounds
        # of the allowed parameter range
        while q[k] < l or q[k] > u:
            if q[k] > u:
                q[k] = 2.0*u - q[k]
                p[j] = -p[j]
            if q[k] < l:
                q[k] = 2.0*l - q[k]
                p[j] = -p[j]
""")]),
 ('p-reflect-elif', [
  (PR, POS2, """            l, u = self.prior_bounds[j]
            q[k] = q[k] + self.dt * p[j] * self.inverse_mass[j]
            # check and reflect against the bounds
            # of the allowed parameter range
            while not (l <= q[k] <= u):
                if q[k] > u:
                    q[k] = u - (q[k] - u)
                else:
                    q[k] = l + (l - q[k])
                p[j] *= -1
        return p, q
""")]),
 ('p-reflect-local', [
  (PR, POS2, """            lower, upper = self.prior_bounds[j][0], self.prior_bounds[j][1]
            x = q[k] + self.dt * p[j] * self.inverse_mass[j]
            # check and reflect against the bounds
            # of the allowed parameter range
            while x < lower or x > upper:
                if x > upper:
                    x = upper - (x - upper)
                    p[j] *= -1
                if x < lower:
                    x = lower + (lower - x)
                    p[j] *= -1
            q[k] = x
        return p, q
""")]),
 ('p-leapfrog-pos', [
  (PR, POS1, """                l, u = self.prior_bounds[j]
                q[k] += self.inverse_mass[j] * self.dt * p[j]
                # check and reflect against the bounds
                # of the allowed parameter range
                while q[k] <= l or q[k] >= u:
                    if q[k] > u:
                        q[k] = 2*u - q[k]
                        p[j] *= -1
                    if q[k] < l:
                        q[k] = 2*l - q[k]
                        p[j] *= -1
"""),
  (PR, """            # take a full momentum step
            p += - self.dt * dV
        # Do a final update of the momentum for a half step
        p += - 0.5 * self.dt * dV
""", """            # take a full momentum step
            p -= self.dt * dV
        # Do a final update of the momentum for a half step
        p -= 0.5 * self.dt * dV
""")]),
 ('p-leapfrog-move', [
  (PR, FWD + "\n" + BWD, """        p, q = self._integrate(p0.copy(), q0.copy(), logLmin, trajectory)
        p, q = self._integrate(-p0.copy(), q0.copy(), logLmin, trajectory)
"""),
  (PR, """    def sample_trajectory(self, trajectory):
""", """    def _integrate(self, p, q, logLmin, trajectory):
        p, q, _ = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = True)
        for _ in range(self.L):
            p, q    = self.evolve_trajectory_one_step_position(p, q)
            p, q, _ = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)
            trajectory.append((q.copy(), p.copy()))
        return p, q

    def sample_trajectory(self, trajectory):
""")]),
 ('p-leapfrog-for', [
  (PR, BWD, """        # evolve backward in time
        p, q, reflected = self.evolve_trajectory_one_step_momentum(-p0, q0.copy(), logLmin, half = True)
        for i in range(self.L):
            p, q            = self.evolve_trajectory_one_step_position(p, q)
            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin)
            trajectory += [(q.copy(), p.copy())]
""")]),
 ('p-momentum', [
  (PR, """        reflected = 0
        dV        = self.gradient(q)
        if half is True:
            p += - 0.5 * self.dt * dV
            return p, q, reflected
        else:
            c = self.check_constraint(q, logLmin)
            if c > 0:
                p += - self.dt * dV
            else:
                normal = self.unit_normal(q)
                p += - 2.0*np.dot(p,normal)*normal
                reflected = 1
        return p, q, reflected
""", """        dV = self.gradient(q)
        if half:
            p -= 0.5 * self.dt * dV
            return p, q, 0
        if self.check_constraint(q, logLmin) > 0:
            p -= self.dt * dV
            return p, q, 0
        normal = self.unit_normal(q)
        p -= 2.0*np.dot(p, normal)*normal
        return p, q, 1
""")]),
 ('p-sampletraj', [
  (PR, """        logw = np.array([-self.hamiltonian(p,q) for q,p in trajectory[1:-1]])
        norm = logsumexp(logw)
        idx  = np.random.choice(range(1,len(trajectory)-1), p = np.exp(logw  - norm))
        return trajectory[idx]
""", """        inner = trajectory[1:-1]
        logw = -np.array([self.hamiltonian(p, q) for q, p in inner])
        weights = np.exp(logw - logsumexp(logw))
        idx = np.random.choice(len(inner), p=weights)
        return inner[idx]
""")]),
 ('p-check', [
  (PR, """        q.logP  = -self.V(q)
        q.logL  = self.log_likelihood(q)
        return q.logL - logLmin
""", """        q.logL = self.log_likelihood(q)
        q.logP = -1.0*self.V(q)
        constraint = q.logL - logLmin
        return constraint
""")]),
 ('p-hmc-energy', [
  (PR, """        p0 = np.atleast_1d(self.momenta_distribution.rvs())
        initial_energy = self.hamiltonian(p0,q0)
        # evolve along the trajectory
        q, p = self.evolve_trajectory(p0, q0, *args)
        # minus sign from the definition of the potential
        final_energy   = self.hamiltonian(p,q)
        self.log_J = min(0.0, initial_energy-final_energy)
        return q
""", """        p0 = np.atleast_1d(self.momenta_distribution.rvs())
        h0 = self.hamiltonian(p0, q0)
        q, p = self.evolve_trajectory(p0, q0, *args)
        delta = h0 - self.hamiltonian(p, q)
        self.log_J = delta if delta < 0.0 else 0.0
        return q
""")]),
 ('p-kinetic', [
  (PR, """        return 0.5 * np.dot(p,np.dot(self.inverse_mass_matrix,p))-self.logdeterminant-0.5*self.d*np.log(2.0*np.pi)
""", """        quadratic = np.dot(np.dot(self.inverse_mass_matrix, p), p)
        norm = self.logdeterminant + self.d*np.log(2.0*np.pi)/2
        return quadratic/2 - norm
""")]),
 ('p-timestep', [
  (PR, """        diff = acceptance - self.TARGET
        new_log_scale = np.log(self.scale) + self.ADAPTATIONSIZE * diff
        self.scale = np.exp(new_log_scale)
        self.dt = self.base_dt * self.scale
""", """        diff = acceptance - self.TARGET
        self.scale = self.scale * np.exp(self.ADAPTATIONSIZE * diff)
        self.dt = self.scale * self.base_dt
""")]),
 ('p-integration', [
  (PR, """        ranges = [self.prior_bounds[j][1] - self.prior_bounds[j][0] for j in range(self.d)]

        l, h = np.min(ranges), np.max(ranges)
""", """        ranges = []
        for lower, upper in self.prior_bounds:
            ranges.append(upper - lower)

        l, h = min(ranges), max(ranges)
""")]),
 ('p-mass', [
  (PR, """        if self._initialised == False:
            self.set_integration_parameters()
""", """        if not self._initialised:
            self.set_integration_parameters()
"""),
  (PR, """        self.d                      = self.covariance.shape[0]
        self.inverse_mass_matrix    = np.atleast_2d(self.covariance)
        self.mass_matrix            = np.linalg.inv(self.inverse_mass_matrix)
""", """        self.inverse_mass_matrix    = np.atleast_2d(self.covariance)
        self.mass_matrix            = np.linalg.inv(self.inverse_mass_matrix)
        self.d                      = self.covariance.shape[0]
""")]),
 ('p-mass-init-in-set', [
  (PR, """        super(HamiltonianProposal,self).set_ensemble(ensemble)
        self.update_mass()
        self.update_normal_vector()
        self.update_momenta_distribution()
""", """        super(HamiltonianProposal,self).set_ensemble(ensemble)
        self.update_normal_vector()
        self.update_mass()
        self.update_momenta_distribution()
""")]),
 ('p-unit-normal', [
  (PR, """        v               = np.array([self.normal[i](q[n]) for i,n in enumerate(q.names)])
        v[np.isnan(v)]  = -1.0
        n               = v/np.linalg.norm(v)
        return n
""", """        components = [spline(q[name]) for spline, name in zip(self.normal, q.names)]
        v = np.array(components)
        v[np.isnan(v)] = -1.0
        return v/np.linalg.norm(v)
""")]),
 ('p-gradient', [
  (PR, """        dV = self.dV(q)
        return dV.view(float)
""", """        force = self.dV(q)
        gradient = force.view(np.float64)
        return gradient
""")]),
 ('p-getstate', [
  (PR, """        state = self.__dict__.copy()
        for name in ('V', 'dV', 'log_likelihood'):
            state.pop(name, None)
        return state
""", """        unpicklable = ('V', 'dV', 'log_likelihood')
        return {key: value for key, value in self.__dict__.items() if key not in unpicklable}
""")]),
 ('p-savetraj', [
  (PR, """        f = open(filename,'w')
        names = trajectory[0][0].names

        for n in names:
            f.write(n+'\\t'+'p_'+n+'\\t')
        f.write('logPrior\\tlogL\\tlogLmin\\n')

        for j,step in enumerate(trajectory):
            q = step[0]
            p = step[1]
            for j,n in enumerate(names):
                f.write(repr(q[n])+'\\t'+repr(p[j])+'\\t')
            f.write(repr(q.logP)+'\\t'+repr(q.logL)+'\\t'+repr(logLmin)+'\\n')
        f.close()
""", """        names = trajectory[0][0].names
        with open(filename, 'w') as f:
            header = []
            for n in names:
                header += [n, 'p_'+n]
            f.write('\\t'.join(header + ['logPrior', 'logL', 'logLmin']) + '\\n')

            for q, p in trajectory:
                row = []
                for j, n in enumerate(names):
                    row += [repr(q[n]), repr(p[j])]
                row += [repr(q.logP), repr(q.logL), repr(logLmin)]
                f.write('\\t'.join(row) + '\\n')
""")]),
 ('p-hmc-ctor', [
  (PR, """        weights = [1]
        proposals = [ConstrainedLeapFrog(model=model)]
        super(HamiltonianProposalCycle,self).__init__(proposals, weights)
""", """        super(HamiltonianProposalCycle, self).__init__([ConstrainedLeapFrog(model=model)], [1])
""")]),
]
