"""behaviour-preserving edits around the slice sampler (C39)"""
S, PR = 'sampler.py', 'proposal.py'
RB = """        self.L  = - np.random.uniform(0.0,1.0)
        self.R  = self.L + 1.0
        self.Ne = 0.0
        self.Nc = 0.0
"""
AD = """        Ne = max(1,self.Ne)
        Nc = max(1,self.Nc)
        ratio = Ne/(Ne+Nc)
        self.mu *= 2*ratio
"""
LV = """                Yp = oldparam.logP-np.random.exponential()
                J = np.floor(self.max_steps_out*np.random.uniform(0,1))
                K = (self.max_steps_out-1)-J
"""
LEFT = """                while J > 0:

                    parameter_left = direction_vector * self.L + oldparam

                    if self.model.in_bounds(parameter_left):
                        if Yp > self.model.log_prior(parameter_left):
                            break
                        else:
                            self.increase_left_boundary()
                            J -= 1
                    # if we get out of bounds, break out
                    else:
                        break
"""
RIGHT = """                while K > 0:

                    parameter_right = direction_vector * self.R + oldparam

                    if self.model.in_bounds(parameter_right):

                        if Yp > self.model.log_prior(parameter_right):
                            break
                        else:
                            self.increase_right_boundary()
                            K -= 1
                    # if we get out of bounds, break out
                    else:
                        break
"""
SL = """                slice = 0
                while slice < self.max_slices:
                    # generate a new point between the boundaries we identified
                    Xprime        = np.random.uniform(self.L,self.R)
                    newparam      = direction_vector * Xprime + oldparam
                    newparam.logP = self.model.log_prior(newparam)

                    if newparam.logP > Yp:
                        # compute the new value of logL
                        newparam.logL = self.model.log_likelihood(newparam)
                        if newparam.logL > Y:
                            self.update_logLmax(newparam.logL)
                            oldparam     = newparam.copy()
                            sub_accepted += 1
                            break
                    # adapt the intervals shrinking them
                    if Xprime < 0.0:
                        self.L = Xprime
                        self.Nc = self.Nc + 1
                    elif Xprime > 0.0:
                        self.R = Xprime
                        self.Nc = self.Nc + 1

                    slice += 1
"""
DIR = """                direction_vector = self.proposal.get_direction(mu = self.mu)
                if not(isinstance(direction_vector,parameter.LivePoint)):
                    direction_vector = parameter.LivePoint(oldparam.names,d=array.array('d',direction_vector.tolist()))
"""
YS = "    def yield_sample(self, logLmin):\n\n        while True:\n\n            sub_accepted    = 0\n            sub_counter     = 0\n\n            j = 0\n            while j < self.poolsize:\n                oldparam        = self.evolution_points.popleft()\n                if oldparam.logL > logLmin:\n                    break\n                self.evolution_points.append(oldparam)\n                j += 1\n\n            while True:\n                # Set Initial"
TUNE = """            if self.mcmc_counter < self.tuning_steps:
                self.adapt_length_scale()
"""
QUIET = [
 ('b-um1', [(S, RB, RB.replace("- np.random.uniform(0.0,1.0)", "np.random.uniform(-1.0,0.0)"))]),
 ('b-rand', [(S, RB, RB.replace("- np.random.uniform(0.0,1.0)", "-np.random.rand()"))]),
 ('b-R', [(S, RB, "        self.R = np.random.uniform(0.0,1.0)\n        self.L = self.R - 1.0\n        self.Ne = self.Nc = 0\n")]),
 ('b-inline', [(S, "                self.reset_boundaries()\n", "                self.L = -np.random.uniform()\n                self.R = self.L + 1.0\n                self.Ne = 0.0\n                self.Nc = 0.0\n")]),
 ('a-local', [(S, AD, "        expansions, contractions = max(1,self.Ne), max(1,self.Nc)\n        self.mu = self.mu * (2.0*expansions/(expansions+contractions))\n")]),
 ('a-if', [(S, AD, "        Ne = self.Ne if self.Ne > 1 else 1\n        Nc = self.Nc if self.Nc > 1 else 1\n        self.mu *= 2*Ne/(Ne+Nc)\n")]),
 ('a-tune', [(S, TUNE, "            tuning = self.mcmc_counter < self.tuning_steps\n            if tuning:\n                self.adapt_length_scale()\n")]),
 ('a-guard', [(S, TUNE, "            self.adapt_length_scale()\n"), (S, AD, "        if self.mcmc_counter >= self.tuning_steps:\n            return\n" + AD)]),
 ('l-log', [(S, LV, LV.replace("oldparam.logP-np.random.exponential()", "oldparam.logP+np.log(np.random.uniform())"))]),
 ('l-int', [(S, LV, LV.replace("np.floor(self.max_steps_out*np.random.uniform(0,1))", "np.random.randint(self.max_steps_out)"))]),
 ('l-intf', [(S, LV, LV.replace("np.floor(self.max_steps_out*np.random.uniform(0,1))", "int(self.max_steps_out*np.random.uniform())"))]),
 ('l-swap', [(S, LV, """                K = np.floor(self.max_steps_out*np.random.uniform(0,1))
                J = self.max_steps_out - 1 - K
                Yp = oldparam.logP-np.random.exponential()
""")]),
 ('s-and', [(S, LEFT, """                while J > 0:
                    parameter_left = direction_vector * self.L + oldparam
                    if not self.model.in_bounds(parameter_left) or Yp > self.model.log_prior(parameter_left):
                        break
                    self.increase_left_boundary()
                    J -= 1
""")]),
 ('s-le', [(S, RIGHT, """                while K > 0:
                    parameter_right = direction_vector * self.R + oldparam
                    if self.model.in_bounds(parameter_right) and self.model.log_prior(parameter_right) >= Yp:
                        self.increase_right_boundary()
                        K -= 1
                    else:
                        break
""")]),
 ('s-inline', [(S, LEFT, LEFT.replace("self.increase_left_boundary()", "self.L -= 1.0\n                            self.Ne += 1"))]),
 ('s-for', [(S, LEFT, """                for _ in range(int(J)):
                    parameter_left = direction_vector * self.L + oldparam
                    if not self.model.in_bounds(parameter_left):
                        break
                    if Yp > self.model.log_prior(parameter_left):
                        break
                    self.increase_left_boundary()
""")]),
 ('s-order', [(S, LEFT + "\n                # keep on expanding until we get outside the logL boundary from the right\n                # or the prior bound, whichever comes first\n" + RIGHT, RIGHT + "\n" + LEFT)]),
 ('s-helper', [(S, LEFT, """                while J > 0 and self._in_slice(direction_vector, self.L, oldparam, Yp):
                    self.increase_left_boundary()
                    J -= 1
"""), (S, RIGHT, """                while K > 0 and self._in_slice(direction_vector, self.R, oldparam, Yp):
                    self.increase_right_boundary()
                    K -= 1
"""), (S, YS, """    def _in_slice(self, direction, x, old, level):
        p = direction * x + old
        return self.model.in_bounds(p) and not level > self.model.log_prior(p)

""" + YS)]),
 ('s-helper2', [(S, LEFT, """                self._expand_left(direction_vector, oldparam, Yp, J)
"""), (S, YS, """    def _expand_left(self, direction, old, level, steps):
        while steps > 0:
            p = direction * self.L + old
            if not self.model.in_bounds(p):
                return
            if level > self.model.log_prior(p):
                return
            self.increase_left_boundary()
            steps -= 1

""" + YS)]),
 ('x-lin', [(S, SL, SL.replace("np.random.uniform(self.L,self.R)", "self.L + (self.R-self.L)*np.random.uniform()"))]),
 ('x-for', [(S, SL, SL.replace("                slice = 0\n                while slice < self.max_slices:", "                for slice in range(self.max_slices):").replace("\n                    slice += 1\n", ""))]),
 ('x-count', [(S, SL, SL.replace("""                    if Xprime < 0.0:
                        self.L = Xprime
                        self.Nc = self.Nc + 1
                    elif Xprime > 0.0:
                        self.R = Xprime
                        self.Nc = self.Nc + 1
""", """                    if Xprime < 0.0:
                        self.L = Xprime
                    elif Xprime > 0.0:
                        self.R = Xprime
                    if Xprime != 0.0:
                        self.Nc += 1
"""))]),
 ('x-nocopy', [(S, SL, SL.replace("newparam.copy()", "newparam"))]),
 ('x-helper', [(S, SL, SL.replace("""                    if Xprime < 0.0:
                        self.L = Xprime
                        self.Nc = self.Nc + 1
                    elif Xprime > 0.0:
                        self.R = Xprime
                        self.Nc = self.Nc + 1
""", "                    self._shrink(Xprime)\n")), (S, YS, """    def _shrink(self, x):
        if x == 0.0:
            return
        if x < 0.0:
            self.L = x
        else:
            self.R = x
        self.Nc += 1

""" + YS)]),
 ('x-level', [(S, SL, SL.replace("if newparam.logL > Y:", "if newparam.logL > logLmin:"))]),
 ('d-scale', [(S, DIR, DIR.replace("get_direction(mu = self.mu)", "get_direction(self.mu)"))]),
 ('d-var', [(S, DIR, """                scale = self.mu
                step = self.proposal.get_direction(mu = scale)
                if isinstance(step, parameter.LivePoint):
                    direction_vector = step
                else:
                    direction_vector = parameter.LivePoint(oldparam.names, d=array.array('d', step))
""")]),
 ('m-add', [(S, LEFT, LEFT.replace("direction_vector * self.L + oldparam", "oldparam + direction_vector * self.L"))]),
]
