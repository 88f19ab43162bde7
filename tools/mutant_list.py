TB, KF, KU, INV, AHF, GM, FI, JACF = ("_torch_base.py", "kfac.py", "kfac_utils.py", "inverse.py",
                                     "experimental/activation_hessian.py", "gradient_moments.py",
                                     "fisher.py", "jacobian.py")
# C20
m("C20", "ggn.py", "        output = self._model_func(X)\n", "        self._k = getattr(self, '_k', 0)\n        output = self._model_func(X)\n        self._y = getattr(self, '_y', y)\n        y = self._y if y.shape == self._y.shape else y\n")
m("C20", KF, "                self._gradient_covariances[module_name].add_(covariance)", "                self._gradient_covariances[module_name].mul_(0.5).add_(covariance, alpha=0.5)")
# C21
m("C21", TB, "            if num_data is None\n            else num_data", "            if not num_data or num_data < 2\n            else num_data")
m("C21", KF, "            num_data=num_data,\n            batch_size_fn=batch_size_fn,\n        )\n\n        self._set", "            num_data=None,\n            batch_size_fn=batch_size_fn,\n        )\n\n        self._set")
m("C21", TB, "(lambda X: X.shape[0]) if batch_size_fn is None else batch_size_fn", "(lambda X: X.shape[0] if hasattr(X, 'shape') else len(X))")
# C22
m("C22", KF, 'M_w = rearrange(M[w_pos], "c_out ... v -> c_out (...) v")', 'M_w = rearrange(M[w_pos].mul_(1.0), "c_out ... v -> c_out (...) v")')
m("C22", KF, "x = inputs[0].data.detach()", "x = inputs[0].data.detach().mul_(1.0)")
m("C22", TB, "AM = [zeros_like(m) for m in M]", "AM = [m.mul_(0.0) for m in M]")
# C23
m("C23", TB, "            finally:\n                self.to_device(old_device)", "            else:\n                self.to_device(old_device)")
m("C23", KF, "            finally:\n                self.to_device(old_device)", "            else:\n                self.to_device(old_device)")
m("C23", TB, "grad_params = [g.detach() for g in grad(loss, self._params)]", "loss.backward()\n                grad_params = [p.grad.detach() for p in self._params]")
m("C23", KF, "        self._generator.manual_seed(self._seed)\n", "        self._generator.manual_seed(self._seed)\n            self._model_func.eval()\n")
# C24
m("C24", KF, "        finally:\n            # remove hooks", "        else:\n            # remove hooks")
m("C24", KF, "            for handle in hook_handles:\n                handle.remove()", "            for handle in hook_handles[1:]:\n                handle.remove()")
m("C24", AHF, "            handle.remove()", "            pass")
m("C24", AHF, "        for handle in self._hook_handles:\n            handle.remove()", "        if __exc_value is None:\n            for handle in self._hook_handles:\n                handle.remove()")
# C25
m("C25", KF, "            self._input_covariances, self._gradient_covariances = {}, {}\n            raise", "            raise")
m("C25", TB, "AM = [zeros_like(m) for m in M]", "AM = self._AM = getattr(self, '_AM', None) or [zeros_like(m) for m in M]")
# C26
m("C26", FI, "        self._generator.manual_seed(self._seed)\n", "")
m("C26", FI, "        if self._generator is None or self._generator.device != self._device:\n            self._generator = Generator(device=self._device)\n        self._generator.manual_seed(self._seed)", "        if self._generator is None or self._generator.device != self._device:\n            self._generator = Generator(device=self._device)\n            self._generator.manual_seed(self._seed)")
m("C26", FI, "generator=self._generator", "generator=None")
m("C26", KF, "multinomial(\n                num_samples=1, generator=self._generator\n            )", "multinomial(num_samples=1)")
m("C26", KF, "labels = probs.bernoulli(generator=self._generator)", "labels = probs.bernoulli()")
m("C26", KF, "        self._seed = seed", "        self._seed = 0")
# C27
m("C27", FI, "EM[idx][..., v].add_(ggnvp.detach())", "EM[idx][..., v].add_(ggnvp)")
m("C27", TB, "loss.detach_()", "pass")
m("C27", KF, "g = grad_output.data.detach()", "g = grad_output")
m("C27", KF, "x = inputs[0].data.detach()", "x = inputs[0]")
m("C27", KF, "output.clone().detach() + perturbation", "output + perturbation")
# C28
m("C28", TB, "            y = y.to(self._device)", "            y = y")
m("C28", TB, "                X = X.to(self._device)", "                X = X")
m("C28", KF, "                    param.shape[0], dtype=param.dtype, device=self._device", "                    param.shape[0], device=self._device")
m("C28", TB, "total_loss = tensor([0.0], device=self._device, dtype=self._infer_dtype())", "total_loss = tensor([0.0], device=self._device)")
m("C28", KF, "            self._gradient_covariances[key] = self._gradient_covariances[key].to(device)", "            pass")
m("C28", FI, "or self._generator.device != self._device", "")
