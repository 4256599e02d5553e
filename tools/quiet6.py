"""behaviour-preserving edits around the code of C40"""
PR = 'proposal.py'
REFL = """            while q[k] < l or q[k] > u:
                if q[k] > u:
                    q[k] = u - (q[k] - u)
                    p[j] *= -1
                if q[k] < l:
                    q[k] = l + (l - q[k])
                    p[j] *= -1
        return p, q
"""
STEP = """            u, l  = self.prior_bounds[j][1], self.prior_bounds[j][0]
            q[k]  += self.dt * p[j] * self.inverse_mass[j]
            # check and reflect against the bounds
            # of the allowed parameter range
""" + REFL
LF = """        for i in range(self.L):
            # do a step
            for j,k in enumerate(q.names):
                u,l = self.prior_bounds[j][1], self.prior_bounds[j][0]
                q[k] += self.dt * p[j] * self.inverse_mass[j]
                # check and reflect against the bounds
                # of the allowed parameter range
                while q[k] < l or q[k] > u:
                    if q[k] > u:
                        q[k] = u - (q[k] - u)
                        p[j] *= -1
                    if q[k] < l:
                        q[k] = l + (l - q[k])
                        p[j] *= -1

            dV = self.gradient(q)
            # take a full momentum step
            p += - self.dt * dV
        # the last momentum step must be a half step: take back the other half
        p += 0.5 * self.dt * dV

        return q, -p
"""
MOM = """        reflected = 0
        dV        = self.gradient(q)
        if half is True:
            p += - 0.5 * self.dt * dV
            return p, q, reflected
        else:
            c = self.check_constraint(q, logLmin)
            if c > 0:
                p += - self.dt * dV
            else:
                normal = self.unit_normal(q)
                p += - 2.0*np.dot(p,normal)*normal
                reflected = 1
        return p, q, reflected
"""
CHK = """        q.logP  = -self.V(q)
        q.logL  = self.log_likelihood(q)
        return q.logL - logLmin
"""
FWD = """        i = 0
        p, q, reflected = self.evolve_trajectory_one_step_momentum(p0.copy(), q0.copy(), logLmin, half = True)
        while (i < self.L):
            p, q            = self.evolve_trajectory_one_step_position(p, q)
            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)
            trajectory.append((q.copy(),p.copy()))
            i += 1

"""
BWD = """        i = 0
        p, q, reflected = self.evolve_trajectory_one_step_momentum(-p0.copy(), q0.copy(), logLmin, half = True)
        while (i < self.L):
            p, q            = self.evolve_trajectory_one_step_position(p, q)
            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)
            trajectory.append((q.copy(),p.copy()))
            i += 1
"""
LAST = "#            if i == 3*self.L: break\n        p, q, reflected     = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = True)\n"
EVD = "    def evolve_trajectory(self, p0, q0, logLmin):\n"
SEL = """        logw = np.array([-self.hamiltonian(p,q) for q,p in trajectory[1:-1]])
        norm = logsumexp(logw)
        idx  = np.random.choice(range(1,len(trajectory)-1), p = np.exp(logw  - norm))
        return trajectory[idx]
"""
UN = """        v               = np.array([self.normal[i](q[n]) for i,n in enumerate(q.names)])
        v[np.isnan(v)]  = -1.0
        n               = v/np.linalg.norm(v)
        return n
"""
GS = """        p0 = np.atleast_1d(self.momenta_distribution.rvs())
        initial_energy = self.hamiltonian(p0,q0)
        # evolve along the trajectory
        q, p = self.evolve_trajectory(p0, q0, *args)
        # minus sign from the definition of the potential
        final_energy   = self.hamiltonian(p,q)
        self.log_J = min(0.0, initial_energy-final_energy)
        return q
"""
MASS = """        self.d                      = self.covariance.shape[0]
        self.inverse_mass_matrix    = np.atleast_2d(self.covariance)
        self.mass_matrix            = np.linalg.inv(self.inverse_mass_matrix)
        self.inverse_mass           = np.atleast_1d(np.squeeze(np.diag(self.inverse_mass_matrix)))
        _, self.logdeterminant      = np.linalg.slogdet(self.mass_matrix)
"""
TS = """        diff = acceptance - self.TARGET
        new_log_scale = np.log(self.scale) + self.ADAPTATIONSIZE * diff
        self.scale = np.exp(new_log_scale)
        self.dt = self.base_dt * self.scale
"""
KE = "        return 0.5 * np.dot(p,np.dot(self.inverse_mass_matrix,p))-self.logdeterminant-0.5*self.d*np.log(2.0*np.pi)\n"
SPD = "    def evolve_trajectory_one_step_position(self, p, q):\n"
QUIET = [
 ('h-bounds', [(PR, STEP, STEP.replace("u, l  = self.prior_bounds[j][1], self.prior_bounds[j][0]", "l, u = self.prior_bounds[j]"))]),
 ('h-double', [(PR, STEP, STEP.replace("u - (q[k] - u)", "2.0*u - q[k]").replace("l + (l - q[k])", "2.0*l - q[k]"))]),
 ('h-neg', [(PR, STEP, STEP.replace("p[j] *= -1", "p[j] = -p[j]"))]),
 ('h-elif', [(PR, STEP, STEP.replace("                if q[k] < l:", "                elif q[k] < l:"))]),
 ('h-not', [(PR, STEP, STEP.replace("while q[k] < l or q[k] > u:", "while not (l <= q[k] <= u):"))]),
 ('h-true', [(PR, STEP, STEP.replace(REFL, """            while True:
                if q[k] > u:
                    q[k] = u - (q[k] - u)
                elif q[k] < l:
                    q[k] = l + (l - q[k])
                else:
                    break
                p[j] *= -1
        return p, q
"""))]),
 ('h-local', [(PR, STEP, STEP.replace("q[k]", "x").replace("x  +=", "x = q[k] +").replace("        return p, q\n", "            q[k] = x\n        return p, q\n"))]),
 ('h-drift', [(PR, STEP, STEP.replace("q[k]  += self.dt * p[j] * self.inverse_mass[j]", "velocity = p[j] * self.inverse_mass[j]\n            q[k] = q[k] + velocity * self.dt"))]),
 ('h-helper', [(PR, STEP, STEP.replace(REFL, "            q[k], p[j] = self._mirror(q[k], p[j], l, u)\n        return p, q\n")), (PR, SPD, """    def _mirror(self, x, m, l, u):
        while x < l or x > u:
            if x > u:
                x = u - (x - u)
            else:
                x = l + (l - x)
            m = -m
        return x, m

""" + SPD)]),
 ('h-range', [(PR, "        for j,k in enumerate(q.names):\n            u, l ", "        for j in range(q.dimension):\n            k = q.names[j]\n            u, l ")]),
 ('h-zip', [(PR, STEP, STEP.replace("            u, l  = self.prior_bounds[j][1], self.prior_bounds[j][0]\n", "")), (PR, "        for j,k in enumerate(q.names):\n            q[k]  +=", "        for j,(k,(l,u)) in enumerate(zip(q.names, self.prior_bounds)):\n            q[k]  +=")]),
 ('m-early', [(PR, MOM, """        dV = self.gradient(q)
        if half is True:
            p += - 0.5 * self.dt * dV
            return p, q, 0
        if self.check_constraint(q, logLmin) > 0:
            p += - self.dt * dV
            return p, q, 0
        normal = self.unit_normal(q)
        p += - 2.0*np.dot(p,normal)*normal
        return p, q, 1
""")]),
 ('m-sub', [(PR, MOM, MOM.replace("p += - 0.5 * self.dt * dV", "p -= 0.5 * self.dt * dV").replace("p += - self.dt * dV", "p -= self.dt * dV"))]),
 ('m-lazy', [(PR, MOM, MOM.replace("        dV        = self.gradient(q)\n", "").replace("* dV", "* self.gradient(q)"))]),
 ('m-swap', [(PR, MOM, MOM.replace("""            if c > 0:
                p += - self.dt * dV
            else:
                normal = self.unit_normal(q)
                p += - 2.0*np.dot(p,normal)*normal
                reflected = 1
""", """            if c <= 0:
                n = self.unit_normal(q)
                p -= 2.0*n*np.dot(n,p)
                reflected = 1
            else:
                p -= self.dt * dV
"""))]),
 ('m-half', [(PR, MOM, MOM.replace("if half is True:", "if half:"))]),
 ('m-sum', [(PR, MOM, MOM.replace("np.dot(p,normal)*normal", "np.sum(p*normal)*normal"))]),
 ('m-decl', [(PR, MOM, MOM.replace("dV        = self.gradient(q)", "kick = self.dt * self.gradient(q)").replace("0.5 * self.dt * dV", "0.5 * kick").replace("self.dt * dV", "kick"))]),
 ('c-local', [(PR, CHK, "        logP = -self.V(q)\n        logL = self.log_likelihood(q)\n        q.logP, q.logL = logP, logL\n        return logL - logLmin\n")]),
 ('t-for', [(PR, FWD, FWD.replace("        i = 0\n", "").replace("while (i < self.L):", "for i in range(self.L):").replace("            i += 1\n", ""))]),
 ('t-for2', [(PR, BWD, BWD.replace("        i = 0\n", "").replace("while (i < self.L):", "for _ in range(self.L):").replace("            i += 1\n", "")), (PR, LAST, LAST)]),
 ('t-sign', [(PR, FWD + "        # evolve backward in time\n" + BWD, """        for sign in (1, -1):
            p, q, reflected = self.evolve_trajectory_one_step_momentum(sign*p0, q0.copy(), logLmin, half = True)
            for i in range(self.L):
                p, q            = self.evolve_trajectory_one_step_position(p, q)
                p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)
                trajectory.append((q.copy(),p.copy()))
""")]),
 ('t-helper', [(PR, FWD + "        # evolve backward in time\n" + BWD, """        self._branch(p0.copy(), q0.copy(), logLmin, trajectory)
        p, q = self._branch(-p0, q0.copy(), logLmin, trajectory)
"""), (PR, EVD, """    def _branch(self, p, q, logLmin, trajectory):
        p, q, _ = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = True)
        for i in range(self.L):
            p, q = self.evolve_trajectory_one_step_position(p, q)
            p, q, _ = self.evolve_trajectory_one_step_momentum(p, q, logLmin)
            trajectory.append((q.copy(),p.copy()))
        return p, q

""" + EVD)]),
 ('t-nolast', [(PR, LAST, "")]),
 ('t-copy', [(PR, "        trajectory = [(q0,p0)]\n", "        trajectory = []\n        trajectory.append((q0.copy(), p0.copy()))\n")]),
 ('t-comb', [(PR, "            trajectory.append((q.copy(),p.copy()))\n            i += 1\n\n", "            trajectory += [(q.copy(),p.copy())]\n            i = i + 1\n\n")]),
 ('s-slice', [(PR, SEL, """        inner = trajectory[1:-1]
        logw = np.array([-self.hamiltonian(p,q) for q,p in inner])
        weights = np.exp(logw - logsumexp(logw))
        return inner[np.random.choice(len(inner), p = weights)]
""")]),
 ('s-minus', [(PR, SEL, SEL.replace("np.array([-self.hamiltonian(p,q) for q,p in trajectory[1:-1]])", "-np.array([self.hamiltonian(step[1],step[0]) for step in trajectory[1:-1]])"))]),
 ('s-arange', [(PR, SEL, SEL.replace("range(1,len(trajectory)-1)", "np.arange(1,len(trajectory)-1)"))]),
 ('s-norm', [(PR, SEL, SEL.replace("        norm = logsumexp(logw)\n", "        w = np.exp(logw - np.max(logw))\n").replace("np.exp(logw  - norm)", "w/np.sum(w)"))]),
 ('u-norm', [(PR, UN, "        v = np.array([self.normal[i](q[n]) for i,n in enumerate(q.names)])\n        v[np.isnan(v)] = -1.0\n        return v/np.sqrt(np.sum(v**2))\n")]),
 ('u-zip', [(PR, UN, "        v = np.array([s(q[n]) for s,n in zip(self.normal,q.names)])\n        v[np.isnan(v)] = -1.0\n        v /= np.linalg.norm(v)\n        return v\n")]),
 ('u-dot', [(PR, UN, UN.replace("v/np.linalg.norm(v)", "v/np.sqrt(np.dot(v,v))"))]),
 ('e-if', [(PR, GS, GS.replace("        self.log_J = min(0.0, initial_energy-final_energy)\n", "        lost = initial_energy-final_energy\n        self.log_J = lost if lost < 0.0 else 0.0\n"))]),
 ('e-max', [(PR, GS, GS.replace("min(0.0, initial_energy-final_energy)", "-max(final_energy-initial_energy, 0.0)"))]),
 ('e-tv', [(PR, "        return self.T(p) + self.V(q)\n", "        kinetic = self.T(p)\n        potential = self.V(q)\n        return kinetic + potential\n")]),
 ('e-kin', [(PR, KE, "        quadratic = np.dot(np.dot(self.inverse_mass_matrix,p),p)\n        constant = self.logdeterminant + 0.5*self.d*np.log(2.0*np.pi)\n        return 0.5*quadratic - constant\n")]),
 ('e-matmul', [(PR, KE, KE.replace("np.dot(p,np.dot(self.inverse_mass_matrix,p))", "p.dot(self.inverse_mass_matrix).dot(p)"))]),
 ('e-at', [(PR, KE, KE.replace("np.dot(p,np.dot(self.inverse_mass_matrix,p))", "(p @ self.inverse_mass_matrix @ p)"))]),
 ('w-diag', [(PR, MASS, MASS.replace("np.atleast_1d(np.squeeze(np.diag(self.inverse_mass_matrix)))", "np.diag(self.inverse_mass_matrix)"))]),
 ('w-local', [(PR, MASS, """        covariance = np.atleast_2d(self.covariance)
        self.d = self.covariance.shape[0]
        self.inverse_mass_matrix = covariance
        self.mass_matrix = np.linalg.inv(covariance)
        self.inverse_mass = np.array([covariance[i,i] for i in range(self.d)])
        self.logdeterminant = np.linalg.slogdet(self.mass_matrix)[1]
""")]),
 ('w-logdet', [(PR, MASS, MASS.replace("_, self.logdeterminant      = np.linalg.slogdet(self.mass_matrix)", "self.logdeterminant = np.log(np.linalg.det(self.mass_matrix))"))]),
 ('d-exp', [(PR, TS, "        self.scale = self.scale * np.exp(self.ADAPTATIONSIZE * (acceptance - self.TARGET))\n        self.dt = self.base_dt * self.scale\n")]),
 ('d-mul', [(PR, TS, "        self.scale *= np.exp(self.ADAPTATIONSIZE * (acceptance - self.TARGET))\n        self.dt = self.scale * self.base_dt\n")]),
 ('l-half', [(PR, LF, LF.replace("""            # take a full momentum step
            p += - self.dt * dV
        # the last momentum step must be a half step: take back the other half
        p += 0.5 * self.dt * dV
""", """            # a full momentum step, a half step at the end
            if i < self.L - 1:
                p += - self.dt * dV
            else:
                p += - 0.5 * self.dt * dV
"""))]),
 ('l-call', [(PR, LF, """        for i in range(self.L):
            p, q = self._drift(p, q)
            dV = self.gradient(q)
            p -= self.dt * dV
        p += 0.5 * self.dt * dV

        return q, -p

    def _drift(self, p, q):
        for j,k in enumerate(q.names):
            l, u = self.prior_bounds[j]
            q[k] += self.dt * p[j] * self.inverse_mass[j]
            while q[k] < l or q[k] > u:
                if q[k] > u:
                    q[k] = u - (q[k] - u)
                    p[j] *= -1
                if q[k] < l:
                    q[k] = l + (l - q[k])
                    p[j] *= -1
        return p, q
""")]),
 ('l-kdk', [(PR, "        p = p0 - 0.5 * self.dt * self.gradient(q0)\n        q = q0.copy()\n\n" + LF, "        p = p0\n        q = q0.copy()\n        dV = self.gradient(q0)\n\n" + LF.replace("            # do a step\n", "            p = p - 0.5 * self.dt * dV\n").replace("            p += - self.dt * dV\n", "            p = p - 0.5 * self.dt * dV\n").replace("            # take a full momentum step\n", "").replace("        # the last momentum step must be a half step: take back the other half\n        p += 0.5 * self.dt * dV\n", ""))]),
 ('l-np', [(PR, LF, LF.replace("return q, -p", "return q, np.negative(p)"))]),
]
