"""Behaviour-preserving edits of the package: the checks must stay quiet after each of them.

usage: benign.py [-l] [-t] [-p C01,C02] [NAME ...]   (-l list; -t run the repository's tests too; JOBS=n)
Each edit is applied to a scratch copy of /repo.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, C, S, A = "bandstructure.py", "conductivity.py", "scattering.py", "admr.py"
PM, PO = "fitting_admr_parallel_multiT.py", "fitting_admr_parallel_oneT.py"
SO, SM = "fitting_admr_series_oneT.py", "fitting_admr_series_multi_T.py"
E = {}      # name -> list of (file, old, new)

# -- band structure ----------------------------------------------------------------
E["band-erase-loop"] = [(B, '''        self.kf  = None
        self.vf  = None
        self.mass = None
        self.dkf = None
        self.dks = None
        self.dkz = None
        self.p   = None
        self.n   = None
        self.dos_k = None
        self.dos_epsilon = None
        self.number_of_points_per_kz_list = []

    def energy_velocity''', '''        for name in ("number_of_points_per_kz_list", "dos_epsilon", "dos_k", "n", "p",
                     "dkz", "dks", "dkf", "mass", "vf", "kf"):
            setattr(self, name, [] if name.endswith("_list") else None)

    def energy_velocity'''), (B, '''            self.erase_Fermi_surface()
            self._band_params[key] = value
''', '''            self._band_params[key] = value
            self.erase_Fermi_surface()
''')]
E["band-discretize-helper"] = [(B, '''            # Compute Velocity at t = 0 on Fermi Surface
            vx, vy, vz = self.velocity_func(self.kf[0, :], self.kf[1, :], self.kf[2, :])
            # dim -> (n, i0) = (xyz, position on FS)
            self.vf = np.vstack([vx, vy, vz])
            # Density of State of k, dos_k in  Joule^1 m^-1
            # dos_k = 1 / (|grad(E)|) here = 1 / (hbar * |v|),
            self.dos_k = 1 / (hbar * sqrt(self.vf[0,:]**2 + self.vf[1,:]**2 +self.vf[2,:]**2))
''', '''            velocity, dos = self.velocity_and_dos(self.kf)
            self.dos_k = dos
            self.vf = velocity

    def velocity_and_dos(self, kf):
        vf = np.array(self.velocity_func(*kf))
        speed = np.sqrt(np.square(vf[0]) + np.square(vf[1]) + np.square(vf[2]))
        return vf, 1 / (hbar * speed)
'''), (B, '''            if self.march_square is True:
                self.kf, self.dkf = self.marching_square(epsilon)
            else:
                self.kf, self.dkf = self.marching_cube(epsilon)
''', '''            march = self.marching_square if self.march_square is True else self.marching_cube
            surface = march(epsilon=epsilon)
            self.dkf = surface[1]
            self.kf = surface[0]
''')]
E["band-filling-direct"] = [(B, '''        energy, _, _, _, _, _, _ = self.dispersion_grid([res_x, res_y, res_z])
        kVolume = energy.shape[0] * energy.shape[1] * energy.shape[2]
        self.n = 2 * np.sum(np.greater_equal(0, energy)) / kVolume / self.number_of_bz
        # 2 is for the spin
        self.p = 1 - self.n
        return self.n
''', '''        energy = self.dispersion_grid((res_x, res_y, res_z))[0]
        filled = int(np.count_nonzero(energy <= 0))
        n = 2 * filled / energy.size / self.number_of_bz
        self.p, self.n = 1 - n, n
        return n
'''), (B, '''            self.doping(res_x=self.resolution[0]*10,
                        res_y=self.resolution[1]*10,
                        res_z=self.resolution[2]*10, printDoping=printDoping)
''', '''            res_x, res_y, res_z = [res * 10 for res in self.resolution]
            self.doping(res_x, res_y, res_z, printDoping)
''')]
E["band-filling-by-slices"] = [(B, '''        energy, _, _, _, _, _, _ = self.dispersion_grid([res_x, res_y, res_z])
        kVolume = energy.shape[0] * energy.shape[1] * energy.shape[2]
        self.n = 2 * np.sum(np.greater_equal(0, energy)) / kVolume / self.number_of_bz
''', '''        kx_a = np.linspace(-self.k_max[0] / self.a, self.k_max[0] / self.a, res_x)
        ky_a = np.linspace(-self.k_max[1] / self.b, self.k_max[1] / self.b, res_y)
        kz_a = np.linspace(-self.k_max[2] / self.c, self.k_max[2] / self.c, res_z)
        kxx, kyy = np.meshgrid(kx_a, ky_a, indexing='ij')
        filled = 0
        for kz in kz_a:
            filled += np.sum(np.greater_equal(0, self.energy_func(kxx, kyy, kz)))
        kVolume = res_x * res_y * res_z
        self.n = 2 * filled / kVolume / self.number_of_bz
''')]
E["band-mu-lambda"] = [(B, '''            mu = optimize.brentq(self.diff_doping, -10, 10,
                                 args=(p_target,), xtol=ptol)
''', '''            mu = optimize.brentq(lambda x: self.diff_doping(x, p_target), a=-10, b=10, xtol=ptol)
'''), (B, '''    def bandParameters(self):
        abc = [self.a, self.b, self.c]
        val = [value * self.energy_scale for (key, value)
               in sorted(self._band_params.items())]
        return abc + val
''', '''    def bandParameters(self):
        val = [self.a, self.b, self.c]
        for key in sorted(self._band_params):
            val.append(self._band_params[key] * self.energy_scale)
        return val
''')]
E["band-restore-explicit"] = [(B, '''    attributes = vars(obj).copy()
    try:
        yield
    except BaseException:
        vars(obj).update(attributes)
        raise
''', '''    attributes = dict(obj.__dict__)
    done = False
    try:
        yield
        done = True
    finally:
        if not done:
            for name, value in attributes.items():
                obj.__dict__[name] = value
''')]
E["band-square-lists"] = [(B, '''                    x_dump = x_int
                    y_dump = y_int
                    for angle in [pi / 2, pi, 3 * pi / 2]:
                        x_int_p, y_int_p = self.rotation(x_int, y_int, angle)
                        x_dump = np.append(x_dump, x_int_p)
                        y_dump = np.append(y_dump, y_int_p)
''', '''                    turned = [(x_int, y_int)] + [self.rotation(x_int, y_int, n * pi / 2) for n in (1, 2, 3)]
                    x_dump = np.concatenate([xy[0] for xy in turned])
                    y_dump = np.concatenate([xy[1] for xy in turned])
''')]
E["band-energy-class"] = [(B, '''            self.epsilon_func = jit(epsilon_func, nopython=True)
            self.v_func = jit(v_func, nopython=True)
''', '''            compiled = [jit(func, nopython=True) for func in (v_func, epsilon_func)]
            self.v_func, self.epsilon_func = compiled
'''), (B, '''    def energy_func(self, kx, ky, kz):
        return self.epsilon_func(kx, ky, kz, *self.bandParameters())

    def velocity_func(self, kx, ky, kz):
        return self.v_func(kx, ky, kz, *self.bandParameters())
''', '''    def energy_func(self, kx, ky, kz):
        args = [kx, ky, kz] + self.bandParameters()
        return self.epsilon_func(*args)

    def velocity_func(self, kx, ky, kz):
        args = [kx, ky, kz] + self.bandParameters()
        velocity = self.v_func(*args)
        return velocity
''')]

# -- conductivity and scattering ---------------------------------------------------
E["cond-local-lists"] = [(C, '''            self.dos_k_epsilon      = {}
            self.dkf_epsilon        = {}
            self.kft_epsilon        = {}
            self.vft_epsilon        = {}
            self.t_o_tau_epsilon    = {}
            for epsilon in self.epsilon_array:
                self.bandObject.runBandStructure(epsilon = epsilon, printDoping=False)
                self.solve_movement()
                self.t_o_tau_func(epsilon)
                self.dos_k_epsilon[epsilon]      = self.bandObject.dos_k
                self.dkf_epsilon[epsilon]        = self.bandObject.dkf
                self.kft_epsilon[epsilon]        = self.kft
                self.vft_epsilon[epsilon]        = self.vft
                self.t_o_tau_epsilon[epsilon]    = self.t_o_tau
''', '''            dos_k, dkf, kft, vft, t_o_tau = {}, {}, {}, {}, {}
            for epsilon in self.epsilon_array:
                self.bandObject.runBandStructure(epsilon)
                self.solve_movement()
                self.t_o_tau_func(epsilon)
                kft[epsilon], vft[epsilon], t_o_tau[epsilon] = self.kft, self.vft, self.t_o_tau
                dkf[epsilon], dos_k[epsilon] = self.bandObject.dkf, self.bandObject.dos_k
            self.dos_k_epsilon, self.dkf_epsilon = dos_k, dkf
            self.kft_epsilon, self.vft_epsilon, self.t_o_tau_epsilon = kft, vft, t_o_tau
            if True:
                pass
''')]
E["cond-chambers-vectors"] = [(C, '''            sigma_tot = 0
            alpha_tot = 0
            beta_tot = 0
            d_epsilon = self.epsilon_array[1] - self.epsilon_array[0]
            for epsilon in self.epsilon_array:
                sigma_epsilon = self.sigma_epsilon(self.dos_k_epsilon[epsilon],
                                                   self.dkf_epsilon[epsilon],
                                                   self.kft_epsilon[epsilon],
                                                   self.vft_epsilon[epsilon],
                                                   self.t_o_tau_epsilon[epsilon])
                # Sum over the energie
                sigma_tot += d_epsilon * (- self.dfdE(epsilon)) * \\
                             self.integrand_coeff(epsilon, "sigma") * sigma_epsilon
                alpha_tot += d_epsilon * (- self.dfdE(epsilon)) * \\
                             self.integrand_coeff(epsilon, "alpha") * sigma_epsilon
                beta_tot  += d_epsilon * (- self.dfdE(epsilon)) * \\
                             self.integrand_coeff(epsilon, "beta") * sigma_epsilon
            self.sigma = sigma_tot
            self.alpha = alpha_tot
            self.beta  = beta_tot
''', '''            d_epsilon = self.epsilon_array[1] - self.epsilon_array[0]
            names = ("dos_k_epsilon", "dkf_epsilon", "kft_epsilon", "vft_epsilon", "t_o_tau_epsilon")
            layers = [self.sigma_epsilon(*[getattr(self, name)[epsilon] for name in names])
                      for epsilon in self.epsilon_array]
            weights = [-d_epsilon * self.dfdE(epsilon) for epsilon in self.epsilon_array]
            total = {}
            for coeff in ("beta", "alpha", "sigma"):
                total[coeff] = np.zeros((3, 3))
                for epsilon, weight, layer in zip(self.epsilon_array, weights, layers):
                    total[coeff] = total[coeff] + weight * self.integrand_coeff(epsilon, coeff) * layer
            self.beta, self.alpha, self.sigma = total["beta"], total["alpha"], total["sigma"]
''')]
E["cond-odeint-call"] = [(C, '''            with odeint_lock:
                self.kft = odeint(self.movement_equation, kf0, self.time_array,
                                  rtol = self.rtol, atol = self.atol).transpose()
            # Reshape arrays
            self.kft.shape = (3, len_kf, len_t)
''', '''            def equation(k, t):
                return self.movement_equation(k, t)
            odeint_lock.acquire()
            try:
                solution = odeint(func=equation, y0=kf0, t=self.time_array,
                                  rtol=self.rtol, atol=self.atol)
            finally:
                odeint_lock.release()
            # Reshape arrays
            self.kft = solution.T.reshape(3, len_kf, len_t)
'''), (C, '''        len_k = int(k.shape[0]/3)
        k.shape = (3, len_k) # reshape the flatten k
        vx, vy, vz =  self.bandObject.velocity_func(k[0,:], k[1,:], k[2,:])
        dkdt = ( - e * picosecond * Angstrom / hbar ) * self.crossProductVectorized(vx, vy, vz)
        dkdt.shape = (3*len_k,) # flatten k again
        return dkdt
''', '''        kx, ky, kz = np.reshape(k, (3, -1))
        vx, vy, vz =  self.bandObject.velocity_func(kx, ky, kz)
        dkdt = ( - e * picosecond * Angstrom / hbar ) * self.crossProductVectorized(vx, vy, vz)
        return dkdt.ravel()
''')]
E["cond-run-inlined"] = [(C, '''        # the energy integration moves the band away from epsilon = 0
        with restored_on_failure(self.bandObject):
            self.run_transport()

    def run_transport(self):
        if self._T != 0: # the time grid is that of the Fermi surface at epsilon = 0
            self.bandObject.runBandStructure(epsilon = 0, printDoping=False)
        self.reset_time() # calculates the upper cut of for the movement equation
        self.phi = None # reset the phi angle
''', '''        with restored_on_failure(self.bandObject):
            self._run()
            times = [self.tau_total_min(), self.tau_total_max()]
        self.gamma_tot_max, self.gamma_tot_min = [1 / tau for tau in times]

    def _run(self):
        finite = self._T != 0
        self.phi = None # reset the phi angle
        if finite:
            self.bandObject.runBandStructure()
        self.reset_time() # calculates the upper cut of for the movement equation
'''), (C, '''            self.chambers_func()

        self.gamma_tot_max = 1 / self.tau_total_min() # in THz
        self.gamma_tot_min = 1 / self.tau_total_max() # in THz
''', '''            self.chambers_func()
''')]
E["cond-time-helper"] = [(C, '''        self.time_max = 8 * self.tau_total_max()  # in picoseconds
        self.dtime = self.time_max / self.N_time
        self.time_array = np.arange(0, self.time_max, self.dtime)
        self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1] # integrand for tau_function
''', '''        self.time_max = self.tau_total_max() * 8  # in picoseconds
        self._fill_time_grid()

    def _fill_time_grid(self):
        dtime = self.time_max / self._N_time
        times = np.arange(0, self.time_max, dtime)
        steps = np.full(times.shape, dtime)
        steps[0] = 0
        self.dtime_array = steps
        self.dtime, self.time_array = dtime, times
'''), (C, '''        self.dtime = self.time_max / self._N_time
        self.time_array = np.arange(0, self.time_max, self.dtime)
        # integrand for tau_function
        self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1]
''', '''        self._fill_time_grid()
''')]
E["cond-field-setters"] = [(C, '''    def _set_Bphi(self, Bphi):
        self._Bphi = Bphi
        self._B_vector = self.B_func()
''', '''    def _set_Bphi(self, Bphi):
        self._set_field("_Bphi", Bphi)

    def _set_field(self, name, value):
        setattr(self, name, value)
        self._B_vector = self.B_func()
'''), (C, '''        self._Btheta = Btheta
        self._B_vector = self.B_func()
    Btheta =''', '''        self._set_field("_Btheta", Btheta)
    Btheta ='''), (C, '''        B = self._Bamp * np.array([sin(self._Btheta*pi/180) * cos(self._Bphi*pi/180),
                                   sin(self._Btheta*pi/180) * sin(self._Bphi*pi/180),
                                   cos(self._Btheta*pi/180)])
        return B
''', '''        theta, phi = np.deg2rad(self._Btheta), np.deg2rad(self._Bphi)
        return np.array([sin(theta) * cos(phi), sin(theta) * sin(phi), cos(theta)]) * self._Bamp
''')]
E["cond-epsilon-helper"] = [(C, '''        if self._T != 0:
            bound = self.energyCutOff(self._dfdE_cut_percent * np.abs(self.dfdE(0)))
            self.epsilon_array = np.linspace(-bound,bound, self._N_epsilon)
    T =''', '''        if self._T != 0:
            self._update_epsilon()

    def _update_epsilon(self):
        cut = self._dfdE_cut_percent * np.abs(self.dfdE(0))
        bound = self.energyCutOff(cut)
        self.epsilon_array = np.linspace(-bound, bound, num=self._N_epsilon)
    T ='''), (C, '''        self._N_epsilon = N_epsilon
        bound = self.energyCutOff(self._dfdE_cut_percent * np.abs(self.dfdE(0)))
        self.epsilon_array = np.linspace(-bound,bound, self._N_epsilon)
''', '''        self._N_epsilon = N_epsilon
        self._update_epsilon()
'''), (C, '''        bound = self.energyCutOff(dfdE_cut_percent * np.abs(self.dfdE(0)))
        self.epsilon_array = np.linspace(-bound,bound, self._N_epsilon)
''', '''        self._update_epsilon()
''')]
E["cond-tau-one-pass"] = [(C, '''            self.tau_tot = self.tau_tot_func(self.kft[0, :, :],
                                             self.kft[1, :, :],
                                             self.kft[2, :, :],
                                             self.vft[0, :, :],
                                             self.vft[1, :, :],
                                             self.vft[2, :, :],
                                             epsilon)
            self.t_o_tau = np.cumsum( self.dtime_array / self.tau_tot, axis = 1)
''', '''            tau = self.tau_tot_func(*self.kft, *self.vft, epsilon=epsilon)
            self.t_o_tau = np.cumsum(self.dtime_array[np.newaxis, :] / tau, axis=1)
            self.tau_tot = tau
'''), (S, '''        self.gamma_tot = np.zeros_like(kx)
        # Execute each method in scattering_params
        for model in self.scattering_models:
            func = getattr(self, model)
            func_args = func.__code__.co_varnames
            if "epsilon" in func_args:
                self.gamma_tot += func(epsilon)
            elif "vx" in func_args:
                self.gamma_tot += func(vx, vy, vz)
            else:
                self.gamma_tot += func(kx, ky, kz)
        return 1 / self.gamma_tot
''', '''        gamma_tot = np.zeros_like(kx)
        for model in self.scattering_models:
            gamma_tot = gamma_tot + self.rate(getattr(self, model), (kx, ky, kz), (vx, vy, vz), epsilon)
        self.gamma_tot = gamma_tot
        return 1 / gamma_tot

    @staticmethod
    def rate(func, k, v, epsilon):
        func_args = func.__code__.co_varnames
        if "epsilon" in func_args:
            return func(epsilon)
        return func(*v) if "vx" in func_args else func(*k)
''')]
E["scatt-params-order"] = [(S, '''        self._scattering_params = deepcopy(scattering_params)
        # Set scattering rate model parameters as class attributes
        for param, value in self._scattering_params.items():
            setattr(self, param, value)  # Set each parameter as an attribute
    scattering_params''', '''        params = deepcopy(scattering_params)
        for param in sorted(params):
            setattr(self, param, params[param])
        self._scattering_params = params
    scattering_params'''), (S, '''        kx = np.remainder(kx + pi / a, 2*pi / a) - pi / a
        ky = np.remainder(ky + pi / b, 2*pi / b) - pi / b
        self.phi = arctan2(ky, kx)
        return self.phi

    ## Scatterint''', '''        def folded(k, a):
            return np.remainder(k + pi / a, 2*pi / a) - pi / a
        phi = arctan2(folded(ky, b), folded(kx, a))
        self.phi = phi
        return phi

    ## Scatterint''')]
E["cond-import-integrate"] = [(C, '''from scipy.integrate import odeint
''', '''from scipy import integrate
'''), (C, '''                self.kft = odeint(self.movement''', '''                self.kft = integrate.odeint(self.movement''')]
E["cond-einsum"] = [(C, '''            vi = vft[:, :, 0] # (3, len_kf)
            vj = np.sum(vft[:, :, :] * exp(-t_o_tau) * self.dtime, axis=2) # (3, len_kf)
            self.v_product = np.einsum('ji,ki->jki',vi,vj) # (3, 3, len_kf)
                                        # with 3, 3 the indices for i, j in sigma
        else:
            self.v_product = np.einsum('ji,ki->jki', vft[:, :, 0], vft[:, :, 0] * (1 / t_o_tau))
        return self.v_product
''', '''            vj = (vft * exp(-t_o_tau)).sum(axis=2) * self.dtime # (3, len_kf)
        else:
            vj = vft[:, :, 0] / t_o_tau
        product = vft[:, np.newaxis, :, 0] * vj[np.newaxis, :, :]
        self.v_product = product
        return product
''')]

# -- sweeps ------------------------------------------------------------------------
E["admr-product"] = [(A, '''        for i, phi in iterator:
            for j, theta in enumerate(self.Btheta_array):
                sigma_tensor = 0
                for l in range(len(self.condObject_list)):
                    self.condObject_list[l].Bphi = phi
                    self.condObject_list[l].Btheta = theta
                    self.condObject_list[l].runTransport()
                    sigma_tensor += self.condObject_list[l].sigma
                rho = np.linalg.inv(sigma_tensor)
                rhozz_array[i, j] = rho[2,2]
''', '''        for i, phi in iterator:
            rhozz_array[i, :] = [self.resistivity(phi, theta)[2, 2] for theta in self.Btheta_array]
'''), (A, '''    def update_total_doping(self):
        self.total_filling = 0
        for i in range(len(self.condObject_list)):
            self.total_filling += self.condObject_list[i].bandObject.n
        self.total_hole_doping = 1 - self.total_filling
''', '''    def resistivity(self, phi, theta):
        total = np.zeros((3, 3))
        for condObject in self.condObject_list:
            condObject.Btheta = theta
            condObject.Bphi = phi
            condObject.runTransport()
            total = total + condObject.sigma
        return np.linalg.inv(total)

    def update_total_doping(self):
        filling = sum(condObject.bandObject.n for condObject in self.condObject_list)
        self.total_hole_doping = 1 - filling
        self.total_filling = filling
''')]
E["admr-bands-outside"] = [(A, '''        for i, phi in iterator:
            for j, theta in enumerate(self.Btheta_array):
                sigma_tensor = 0
                for l in range(len(self.condObject_list)):
                    self.condObject_list[l].Bphi = phi
                    self.condObject_list[l].Btheta = theta
                    self.condObject_list[l].runTransport()
                    sigma_tensor += self.condObject_list[l].sigma
                rho = np.linalg.inv(sigma_tensor)
                rhozz_array[i, j] = rho[2,2]
''', '''        for i, phi in iterator:
            sigma_tensors = np.zeros((self.Btheta_array.size, 3, 3))
            for condObject in self.condObject_list:
                condObject.Bphi = phi
                for j, theta in enumerate(self.Btheta_array):
                    condObject.Btheta = theta
                    condObject.runTransport()
                    sigma_tensors[j] += condObject.sigma
            rhozz_array[i, :] = np.linalg.inv(sigma_tensors)[:, 2, 2]
''')]
E["admr-norm-broadcast"] = [(A, '''        rzz_array = np.empty_like(rhozz_array)
        for i in range(len(self.Bphi_array)):
            rhozz_norm = np.interp(self.Btheta_norm,
                                   self.Btheta_array, rhozz_array[i,:])
            rzz_array[i,:] = rhozz_array[i,:] / rhozz_norm
        return rhozz_array, rzz_array
''', '''        norms = [np.interp(self.Btheta_norm, self.Btheta_array, row) for row in rhozz_array]
        rzz_array = rhozz_array / np.array(norms)[:, None]
        return rhozz_array, rzz_array
'''), (A, '''        angles = [(condObject.Bphi, condObject.Btheta) for condObject in self.condObject_list]
        try:
            self.rhozz_array, self.rzz_array = self.sweep_angles()
        except BaseException: # an interrupted sweep leaves the field where it was
            for condObject, (phi, theta) in zip(self.condObject_list, angles):
                condObject.Bphi, condObject.Btheta = phi, theta
            raise
        self.update_total_doping()
''', '''        before = {}
        for i, condObject in enumerate(self.condObject_list):
            before[i] = condObject.Btheta, condObject.Bphi
        try:
            result = self.sweep_angles()
        except BaseException:
            for i, condObject in enumerate(self.condObject_list):
                condObject.Btheta, condObject.Bphi = before[i]
            raise
        self.rhozz_array, self.rzz_array = result
        self.update_total_doping()
''')]
E["admr-table-columns"] = [(A, '''        Ones = np.ones_like(self.Btheta_array) # column of 1 with same size of Btheta_array
        rhozzMatrix = self.rhozz_array[0,:] # initialize with first phi value
        rhozzHeader = "rhozz(phi=" + str(self.Bphi_array[0])+ ")[Ohm.m]\\t"
        for l in range(self.Bphi_array.size):
            if l==0:
                pass # because we already have rhozz_array for the inital value of phi
            else:
                rhozzMatrix = np.vstack((rhozzMatrix, self.rhozz_array[l,:]))
                rhozzHeader += "rho_zz(phi=" + str(self.Bphi_array[l])+ ")[Ohm.m]\\t"

        Data = np.vstack((self.Btheta_array, rhozzMatrix, condObject0.Bamp * Ones))
''', '''        Ones = np.ones_like(self.Btheta_array) # column of 1 with same size of Btheta_array
        names = ["%s(phi=%s)[Ohm.m]" % ("rho_zz" if l else "rhozz", phi) for l, phi in enumerate(self.Bphi_array)]
        rhozzHeader = "".join(name + "\\t" for name in names)
        Data = np.vstack([self.Btheta_array] + [row for row in self.rhozz_array] + [condObject0.Bamp * Ones])
'''), (A, '''            np.savetxt(temporary, Data, fmt='%.7e',
            header = DataHeader, comments = "#")
''', '''            with open(temporary, "w") as f:
                np.savetxt(f, Data, fmt="%.7e", header=DataHeader, comments="#")
''')]
E["admr-table-written"] = [(A, '''            np.savetxt(temporary, Data, fmt='%.7e',
            header = DataHeader, comments = "#")
''', '''            lines = ["#" + DataHeader]
            for row in Data:
                lines.append(" ".join("%.7e" % x for x in row))
            with open(temporary, "w", encoding="latin1") as f:
                f.write("\\n".join(lines) + "\\n")
'''), (A, '''        for i, string in enumerate(file_parameters_list):
            if i==0:
                file_name += string
            else:
                file_name += "_" + string
        return file_name
''', '''        return file_name + "_".join(file_parameters_list)
''')]

# -- fits --------------------------------------------------------------------------
LOAD = '''            data = np.loadtxt(filename, dtype="float", comments="#")
            theta = data[:, col_theta]
            rzz   = data[:, col_rzz]
'''
E["po-loader"] = [(PO, LOAD + '''            ## Sort data
            index_order = np.argsort(theta)
            theta = theta[index_order]
            rzz   = rzz[index_order]
            ## Normalize data
            rzz  /= np.interp(0, theta, rzz)
''', '''            theta, rzz = self.load_columns(filename, col_theta, col_rzz)
            ## Normalize data
            rzz   = rzz / np.interp(0, theta, rzz)
'''), (PO, '''    def update_member(self, x):
''', '''    @staticmethod
    def load_columns(filename, *columns):
        with open(filename) as f:
            theta, rzz = np.loadtxt(f, usecols=columns, unpack=True, ndmin=2)
        order = theta.argsort()
        return np.take(theta, order), np.take(rzz, order)

    def update_member(self, x):
''')]
E["po-diff"] = [(PO, '''        diff_matrix = np.zeros_like(self.rzz_data_matrix)
        for i in range(self.Bphi_array.size):
            if self.normalized_data is True:
                diff_matrix[i, :] = self.rzz_data_matrix[i, :] - self.admrObject.rzz_array[i, :]
            else:
                diff_matrix[i, :] = (self.rhozz_data_matrix[i, :] - self.admrObject.rhozz_array[i, :])*1e5
        self.condObject = None
        self.admrObject = None
''', '''        admr = self.admrObject
        self.admrObject = self.condObject = None
        if self.normalized_data is True:
            diff_matrix = self.rzz_data_matrix - admr.rzz_array
        else:
            diff_matrix = (self.rhozz_data_matrix - admr.rhozz_array) * 1e5
'''), (PO, '''        for i, pars_name in enumerate(self.free_pars_name):
            self.pars[pars_name] = x[i]
        ## Update member with fit parameters
        for pars_name in self.free_pars_name:
            if pars_name in self.member.keys():
                self.member[pars_name] = self.pars[pars_name]
            elif pars_name in self.member["band_params"].keys():
                self.member["band_params"][pars_name] = self.pars[pars_name]
            elif pars_name in self.member["scattering_params"].keys():
                self.member["scattering_params"][pars_name] = self.pars[pars_name]
''', '''        for pars_name, value in zip(self.free_pars_name, x):
            self.pars[pars_name] = value
            for place in (self.member, self.member["band_params"], self.member["scattering_params"]):
                if pars_name in place:
                    place[pars_name] = value
                    break
''')]
E["po-pool"] = [(PO, '''from concurrent.futures import ProcessPoolExecutor
''', '''import concurrent.futures
'''), (PO, '''    with ProcessPoolExecutor(num_workers, initializer=init, initargs=(num_member, )) as pool:
        res = differential_evolution(fit_object.compute_diff2, fit_object.bounds,
                                     updating='deferred', workers=pool.map,
                                     popsize=popsize, mutation=mutation,
                                     recombination=recombination, polish=False,
                                     callback=c)
''', '''    options = dict(popsize=popsize, mutation=mutation, recombination=recombination,
                   polish=False, callback=c, updating="deferred")
    with concurrent.futures.ProcessPoolExecutor(max_workers=num_workers, initializer=init,
                                                initargs=(num_member,)) as executor:
        def evaluate_all(func, members):
            return executor.map(func, members)
        res = differential_evolution(func=fit_object.compute_diff2, bounds=fit_object.bounds,
                                     workers=evaluate_all, **options)
'''), (PO, '''            with open(temporary, 'w') as f:
                json.dump(self.member, f, indent=4)
''', '''            text = json.dumps(self.member, indent=4)
            with open(temporary, mode='w') as f:
                f.write(text)
''')]
E["po-pool-shutdown"] = [(PO, '''    with ProcessPoolExecutor(num_workers, initializer=init, initargs=(num_member, )) as pool:
        res = differential_evolution(fit_object.compute_diff2, fit_object.bounds,
                                     updating='deferred', workers=pool.map,
                                     popsize=popsize, mutation=mutation,
                                     recombination=recombination, polish=False,
                                     callback=c)
''', '''    pool = ProcessPoolExecutor(num_workers, initializer=init, initargs=(num_member, ))
    try:
        res = differential_evolution(fit_object.compute_diff2, fit_object.bounds,
                                     updating='deferred', workers=pool.map,
                                     popsize=popsize, mutation=mutation,
                                     recombination=recombination, polish=False,
                                     callback=c)
    finally:
        pool.shutdown(wait=True)
'''), (PO, '''    def callback():
        def fn(xk, convergence):
            globals()['iteration'] += 1
''', '''    def callback():
        def fn(xk, convergence=0):
            globals()['iteration'] = globals()['iteration'] + 1
''')]
E["po-generate"] = [(PO, '''        for param_name in self.bounds_dict.keys():
                if hasattr(self.bandObject, param_name):
                    setattr(self.bandObject, param_name, self.member[param_name])
                if param_name in self.bandObject._band_params.keys():
                    self.bandObject[param_name] = self.member["band_params"][param_name]
''', '''        for param_name in sorted(self.bounds_dict):
            if param_name in self.bandObject._band_params:
                self.bandObject[param_name] = self.member["band_params"][param_name]
            elif hasattr(self.bandObject, param_name):
                setattr(self.bandObject, param_name, self.member[param_name])
'''), (PO, '''        if self.member["fixdoping"] >=-1 and self.member["fixdoping"] <=1:
''', '''        if -1 <= self.member["fixdoping"] <= 1:
''')]
E["pm-loader"] = [(PM, '''            data  = np.loadtxt(filename, dtype="float", comments="#")
            theta = data[:, col_theta]
            rhozz = data[:, col_rhozz]
            ## Sort data
            index_order = np.argsort(theta)
            theta = theta[index_order]
            rhozz = rhozz[index_order]
''', '''            rows = []
            with open(filename, "r") as f:
                for line in f:
                    line = line.split("#")[0].split()
                    if line:
                        rows.append([float(x) for x in line])
            data = np.array(sorted(rows, key=lambda row: row[col_theta]))
            theta, rhozz = data[:, col_theta], data[:, col_rhozz]
''')]
E["pm-fitness"] = [(PM, '''        diff_array = np.empty(0)
        self.rzz_sim_dict = {}
        self.rhozz_sim_dict = {}
        for T in self.T_list:
            # Compute sim
            self.sim_obj_dict[T].params_dict = self.params_dict[T]
            self.sim_obj_dict[T].compute_rhozz(self.angles_obj_dict[T].Btheta_norm)
            self.rzz_sim_dict[T] = self.sim_obj_dict[T].rzz_sim_matrix
            self.rhozz_sim_dict[T] = self.sim_obj_dict[T].rhozz_sim_matrix
            # Compute diff
            if self.normalized_data is True:
                diff = self.rzz_data_dict[T].flatten() - self.rzz_sim_dict[T].flatten()
            else:
                diff = self.rhozz_data_dict[T].flatten() - self.rhozz_sim_dict[T].flatten()
            diff_array = np.append(diff_array, diff)
        ## Compute chi2
        chi2 = np.sum(diff_array**2)
        return chi2
''', '''        rzz, rhozz = {}, {}
        self.rzz_sim_dict, self.rhozz_sim_dict = rzz, rhozz
        chi2 = 0.
        for T in self.T_list:
            sim = self.sim_obj_dict[T]
            sim.params_dict = self.params_dict[T]
            sim.compute_rhozz(self.angles_obj_dict[T].Btheta_norm)
            rzz[T], rhozz[T] = sim.rzz_sim_matrix, sim.rhozz_sim_matrix
            if self.normalized_data is True:
                diff = self.rzz_data_dict[T] - rzz[T]
            else:
                diff = self.rhozz_data_dict[T] - rhozz[T]
            chi2 = chi2 + np.square(diff).sum()
        return chi2
'''), (PM, '''    def update_parameters(self, x):
        for i, label in enumerate(self.free_params_labels):
            T     = label[0]
            band  = label[1]
            param = label[2]
            if T!="all": # for parameters that are different at different T
                self.update_conditions(T, band, param, x[i])
            elif T=="all": # for parameters that are the same at all T
                for T in self.T_list:
                    self.update_conditions(T, band, param, x[i])
''', '''    def update_parameters(self, x):
        for (T, band, param), value in zip(self.free_params_labels, x):
            for temperature in (self.T_list if T == "all" else [T]):
                self.update_conditions(temperature, band, param, value)
''')]
E["pm-pool"] = [(PM, '''    with ProcessPoolExecutor(num_workers, initializer=init, initargs=(num_member, )) as pool:
        res = differential_evolution(fitness_obj.compute_fitness, fitness_obj.bounds,
                                    updating='deferred', workers=pool.map,
                                    popsize=popsize, mutation=mutation,
                                    recombination=recombination, polish=False,
                                    callback=callback)
''', '''    with ProcessPoolExecutor(max_workers=num_workers, initargs=[num_member], initializer=init) as pool:
        def workers(func, members):
            futures = [pool.submit(func, member) for member in members]
            return [future.result() for future in futures]
        res = differential_evolution(fitness_obj.compute_fitness, fitness_obj.bounds,
                                    updating='deferred', workers=workers,
                                    popsize=popsize, mutation=mutation,
                                    recombination=recombination, polish=False,
                                    callback=callback)
'''), (PM, '''from time import time
''', '''import time as clock
'''), (PM, '''    time_iter = time()
''', '''    time_iter = clock.time()
'''), (PM, '''(time() - globals()''', '''(clock.time() - globals()'''), (PM, '''globals()['time_iter'] = time()''', '''globals()['time_iter'] = clock.time()''')]
E["pm-save-path"] = [(PM, '''        path = os.path.join(folder, filename + ".json")
        with replaced_when_complete(path) as temporary:
            with open(temporary, 'w') as f:
                json.dump(self.params_dict, f, indent=4)
''', '''        from pathlib import Path
        with replaced_when_complete(str(Path(folder) / (filename + ".json"))) as temporary:
            Path(temporary).write_text(json.dumps(self.params_dict, indent=4))
'''), (PM, '''            for name in ["a", "b", "c", "energy_scale", "number_of_bz", "band_params"]:
                if name in params.keys():
                    setattr(condObject.bandObject, name, params[name])
            for name in ["Bamp", "T", "N_epsilon", "dfdE_cut_percent", "N_time",
                         "rtol", "atol", "scattering_params"]:
                if name in params.keys():
                    setattr(condObject, name, params[name])
''', '''            for name in ["scattering_params", "atol", "rtol", "N_time",
                         "dfdE_cut_percent", "N_epsilon", "T", "Bamp"]:
                if name in params:
                    setattr(condObject, name, params[name])
            bandObject = condObject.bandObject
            for name in ["band_params", "number_of_bz", "energy_scale", "c", "b", "a"]:
                if name in params:
                    setattr(bandObject, name, params[name])
''')]
E["pm-angles"] = [(PM, '''        Btheta_min_list = []
        Btheta_max_list = []
        Btheta_steps_list = []
        for i, phi in enumerate(self.Bphi_array):
            Btheta_min_list.append(self.data_dict[self.T, phi][3])
            Btheta_max_list.append(self.data_dict[self.T, phi][4])
            Btheta_steps_list.append(self.data_dict[self.T, phi][5])
        ## Btheta_norm is in principle the same for all phis (here with the last phi)
        self.Btheta_norm = self.data_dict[self.T, phi][6]
        Btheta_min = min(Btheta_min_list)
        Btheta_max = max(Btheta_max_list)
        Btheta_steps = min(Btheta_steps_list)
''', '''        entries = [self.data_dict[self.T, phi] for phi in self.Bphi_array]
        self.Btheta_norm = entries[-1][6]
        Btheta_min = min(entry[3] for entry in entries)
        Btheta_max = max(entry[4] for entry in entries)
        Btheta_steps = min(entry[5] for entry in entries)
''')]
SERIES_DIFF = '''        diff_matrix = np.zeros_like(self.rzz_data_matrix)
        for i in range(self.Bphi_array.size):
            if self.normalized_data==True:
                diff_matrix[i, :] = self.rzz_data_matrix[i, :] - self.admrObject.rzz_array[i, :]
            else:
                diff_matrix[i, :] = (self.rhozz_data_matrix[i, :] - self.admrObject.rhozz_array[i, :])*1e5

        return diff_matrix.flatten()
'''
E["so-diff"] = [(SO, SERIES_DIFF, '''        measured, simulated, unit = self.rzz_data_matrix, self.admrObject.rzz_array, 1
        if self.normalized_data!=True:
            measured, simulated, unit = self.rhozz_data_matrix, self.admrObject.rhozz_array, 1e5
        return np.ravel((measured - simulated) * unit)
'''), (SO, '''        ## Load data
        self.load_and_interp_data()

        ## Update Btheta & Bphi function of the data
        self.member["Bphi_array"]  = list(self.Bphi_array)
        self.member["Btheta_min"]  = float(np.min(self.Btheta_array)) # float need for JSON
        self.member["Btheta_max"]  = float(np.max(self.Btheta_array))
        self.member["Btheta_step"] = float(self.Btheta_array[1] - self.Btheta_array[0])

        ## Update member with fit parameters
        self.update_member(self.pars)
''', '''        ## Update member with fit parameters
        self.update_member(pars)
        ## Load data
        self.load_and_interp_data()
        ## Update Btheta & Bphi function of the data
        thetas = self.Btheta_array
        self.member.update(Bphi_array=self.Bphi_array.tolist(), Btheta_step=float(thetas[1] - thetas[0]),
                           Btheta_max=float(thetas[-1]), Btheta_min=float(thetas[0]))
''')]
E["so-minimize"] = [(SO, '''        if self.method=="least_square":
            out = minimize(self.compute_diff, self.pars)
        elif self.method=="shgo":
            out = minimize(self.compute_diff, self.pars,
                           method='shgo', sampling_method='sobol', options={"f_tol": 1e-16}, n = 100, iters=20)
        elif self.method=="differential_evolution":
            out = minimize(self.compute_diff, self.pars,
                           method='differential_evolution')
        elif self.method=="ampgo":
            out = minimize(self.compute_diff, self.pars,
                           method='ampgo')
        else:
            raise ValueError("This method does not exist in the class")
''', '''        options = {"least_square": dict(method="leastsq"),
                   "shgo": dict(method="shgo", sampling_method="sobol", options={"f_tol": 1e-16}, n=100, iters=20),
                   "differential_evolution": dict(method="differential_evolution"),
                   "ampgo": dict(method="ampgo")}
        if self.method not in options:
            raise ValueError("This method does not exist in the class")
        out = minimize(fcn=self.compute_diff, params=self.pars, **options[self.method])
'''), (SO, '''        with open(self.folder + "/" + self.json_name, "r") as f:
            self.member = json.load(f)
        self.bandObject = BandStructure(**self.member)
        self.bandObject.march_square = True
''', '''        f = open(self.folder + "/" + self.json_name)
        try:
            text = f.read()
        finally:
            f.close()
        member = json.loads(text)
        bandObject = BandStructure(**member)
        bandObject.march_square = True
        self.member, self.bandObject = member, bandObject
''')]
E["so-lmfit-module"] = [(SO, '''from lmfit import minimize, Parameters, report_fit
''', '''import lmfit
from lmfit import Parameters, report_fit
'''), (SO, '''            out = minimize(self.compute_diff, self.pars)
''', '''            out = lmfit.minimize(self.compute_diff, self.pars)
'''), (SO, '''            out = minimize(self.compute_diff, self.pars,
                           method='shgo',''', '''            out = lmfit.minimize(self.compute_diff, self.pars,
                           method='shgo','''), (SO, '''            out = minimize(self.compute_diff, self.pars,
                           method='differential_evolution')
''', '''            out = lmfit.minimize(self.compute_diff, self.pars,
                           method='differential_evolution')
'''), (SO, '''            out = minimize(self.compute_diff, self.pars,
                           method='ampgo')
''', '''            out = lmfit.Minimizer(self.compute_diff, self.pars).minimize(method='ampgo')
''')]
E["sm-diff"] = [(SM, '''        diff = np.array([])
        for T in self.data_T_list:
            diff_matrix = np.zeros_like(self.rzz_data_i_dict[T])
            for i, phi in enumerate(self.Bphi_dict[T]):
                diff_matrix[i, :] = self.rzz_data_i_dict[T][i, :] - self.admrObject_dict[T].rzz_array[i, :]
            diff = np.append(diff, diff_matrix.flatten())
''', '''        diff = np.zeros(0)
        for T in self.data_T_list:
            admr = self.admrObject_dict[T]
            diff = np.concatenate([diff] + [measured - simulated for measured, simulated
                                            in zip(self.rzz_data_i_dict[T], admr.rzz_array)])
'''), (SM, '''        self.bandObject.runBandStructure()

        for T in self.data_T_list:
            self.condObject_dict[T] = Conductivity(self.bandObject, **self.member_dict[T])
            self.admrObject_dict[T] = ADMR([self.condObject_dict[T]], **self.member_dict[T])
            self.admrObject_dict[T].Btheta_array = self.Btheta_dict[T]
            self.admrObject_dict[T].Bphi_array   = self.Bphi_dict[T]
''', '''        self.bandObject.runBandStructure()
        self.condObject_dict = {T: Conductivity(self.bandObject, **self.member_dict[T]) for T in self.data_T_list}
        self.admrObject_dict = {}
        for T, condObject in self.condObject_dict.items():
            admr = ADMR([condObject], **self.member_dict[T])
            admr.Bphi_array, admr.Btheta_array = self.Bphi_dict[T], self.Btheta_dict[T]
            self.admrObject_dict[T] = admr
''')]
E["sm-load"] = [(SM, '''                data = np.loadtxt(filename, dtype="float", comments="#")
                theta = data[:, col_theta]
                rzz   = data[:, col_rzz]

                ## Order data
                index_order = np.argsort(theta)
                theta = theta[index_order]
                rzz   = rzz[index_order]

                rzz  /= np.interp(0, theta, rzz)
''', '''                with open(filename) as f:
                    data = np.loadtxt(f, ndmin=2)
                data = data[data[:, col_theta].argsort()]
                theta = data[:, col_theta].copy()
                rzz   = data[:, col_rzz] / np.interp(0, theta, data[:, col_rzz])
'''), (SM, '''            for t_phi, phi in self.data_dict.keys():
                if (T == t_phi) * np.isin(phi, np.array(self.member_dict[T]["Bphi_array"])):
                    Bphi_array.append(float(phi)) # put float for JSON
            Bphi_array.sort()
''', '''            wanted = list(self.member_dict[T]["Bphi_array"])
            Bphi_array = sorted(float(key[1]) for key in self.data_dict if key[0] == T and key[1] in wanted)
''')]


def apply(name, repo):
    for fname, old, new in E[name]:
        path = os.path.join(repo, "cuprates_transport", fname)
        with open(path, newline="") as f:
            text = f.read()
        if "\r\n" in text:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if text.count(old) != 1:
            raise SystemExit("%s: %d matches in %s of %r" % (name, text.count(old), fname, old[:80]))
        with open(path, "w", newline="") as f:
            f.write(text.replace(old, new))


ABOUT = {B: ["C01", "C02", "C03", "C04", "C06", "C07"], C: ["C01", "C02", "C04", "C06", "C07", "C10"],
         S: ["C01", "C02", "C04", "C06"], A: ["C04", "C05", "C06", "C07", "C10", "C11"],
         PM: ["C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"],
         PO: ["C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"],
         SO: ["C06", "C07", "C10", "C11", "C12", "C13", "C14"],
         SM: ["C06", "C07", "C10", "C11", "C12", "C13", "C14"]}


def runs_of(p):
    if "FRACTION" not in os.environ:
        return []
    sys.path.insert(0, HERE)
    import importlib
    quick = importlib.import_module("sim.props." + p.lower()).RUNS["quick"]
    return [str(max(8, int(float(os.environ["FRACTION"]) * quick)))]


def one(name, checks=None, tests=False):
    base = tempfile.mkdtemp(prefix="benign-")
    lines = []
    try:
        repo = os.path.join(base, "repo")
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), repo, symlinks=True)
        apply(name, repo)
        if tests:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests"], cwd=repo, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, PYTHONPATH=repo))
            lines.append("%-24s tests rc=%d %s" % (name, r.returncode, r.stdout.splitlines()[-1:]))
        props = checks or sorted({p for f, _, _ in E[name] for p in ABOUT[f]})
        for p in props:
            t = time.time()
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = subprocess.run(["/opt/venv/bin/python", "-m", "sim.main", "check", p] + runs_of(p), cwd=HERE, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            first = next((l for l in r.stdout.splitlines() if l.startswith("VIOLATION")), "")
            lines.append("%-24s %s rc=%d %4.0f s %s %s" % (name, p, r.returncode, time.time() - t, first[:90],
                         "" if r.returncode == 0 else "  <<<<< " + r.stdout[-300:]))
        return "\n".join(lines)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    checks = args[args.index("-p") + 1].split(",") if "-p" in args else None
    names = [a for i, a in enumerate(args) if not a.startswith("-") and (i == 0 or args[i - 1] != "-p")] or list(E)
    if "-l" in args:
        for name in names:
            base = tempfile.mkdtemp(prefix="benign-")
            shutil.copytree("/repo/cuprates_transport", base + "/cuprates_transport")
            apply(name, base)
            r = subprocess.run([sys.executable, "-m", "compileall", "-q", base], stdout=subprocess.PIPE, text=True)
            print(name, sorted({f for f, _, _ in E[name]}), "ok" if r.returncode == 0 else r.stdout)
            shutil.rmtree(base)
        sys.exit()
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "1"))) as pool:
        for text in pool.map(lambda n: one(n, checks, "-t" in args), names):
            print(text, flush=True)
