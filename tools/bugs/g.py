B=[]
def b(n,p,*e): B.append((n,p,list(e)))
EB="returnn/engine/base.py"; EN="returnn/torch/engine.py"; UP="returnn/torch/updater.py"
b("ret_worst","C16",(EB,"worst_score_values = {key: max(scores) for (key, scores) in score_values.items()}","worst_score_values = {key: scores[-1] for (key, scores) in score_values.items()}"))
b("ret_sortnew","C16",(EB,"scores = sorted([(get_scores(epoch).get(key, worst_score_values[key]), epoch) for epoch in epochs])","scores = sorted([(get_scores(epoch).get(key, worst_score_values[key]), -epoch) for epoch in epochs])\n            scores = [(a, -e) for a, e in scores]"))
b("ret_equal","C16",(EB,"            elif min(scores) == max(scores):","            elif abs(min(scores) - max(scores)) < 1e-3:"))
b("ret_maxsum","C16",(EB,"if max(keep_last_n, keep_best_n) >= len(epochs):","if keep_last_n + keep_best_n >= len(epochs):"))
b("ret_pow","C16",(EB,"keep_every = 80 * next_power_of_two(1 + epochs[-1] // 240)","keep_every = 80 * next_power_of_two(epochs[-1] // 240)"))
b("ret_doub","C16",(EB,"            n = keep_doubles_of * (2**i)\n            if n > epochs[-1]:","            n = keep_doubles_of * (2**i)\n            if n >= epochs[-1]:"))
b("ret_resume","C17",(EB,"keep_epochs.update(sorted(self.get_existing_models(config=self.config, for_training=True).keys())[-1:])","pass"))
b("ret_key","C16",(EB,"for data in lr_control.epoch_data.values():\n            score_keys.update(data.error.keys())","for data in lr_control.epoch_data.values():\n            score_keys.update(k for k in data.error.keys() if not k.startswith(\"train_\"))"))
b("ret_opt","C16",(EN,"        if os.path.exists(opt_fname):\n            count_bytes += os.stat(opt_fname).st_size\n            os.remove(opt_fname)\n","        if os.path.exists(opt_fname) and os.stat(opt_fname).st_size > 10**4:\n            count_bytes += os.stat(opt_fname).st_size\n            os.remove(opt_fname)\n"))
b("tl_dyn","C18",(EN,"                cur_count_grad_accum += 1\n                perform","                cur_count_grad_accum += 1\n                accum_grad_multiple_step = max(1, accum_grad_multiple_step)\n                if accum_grad_multiple_step_dyn and step_idx == 0:\n                    accum_grad_multiple_step_dyn_prev = accum_grad_multiple_step\n                perform"))
b("tl_zero","C18",(EN,"                    self._updater.get_optimizer().zero_grad()\n                    cur","                    if step_idx > 0 or self.epoch == 1:\n                        self._updater.get_optimizer().zero_grad()\n                    cur"))
b("tl_clipord","C18",(UP,"        if self._grad_clip:\n            torch.nn.utils.clip_grad_value_(self.network.parameters(), self._grad_clip)\n        if self._grad_clip_global_norm:\n            torch.nn.utils.clip_grad_norm_(self.network.parameters(), self._grad_clip_global_norm)\n","        if self._grad_clip_global_norm:\n            torch.nn.utils.clip_grad_norm_(self.network.parameters(), self._grad_clip_global_norm)\n        if self._grad_clip:\n            torch.nn.utils.clip_grad_value_(self.network.parameters(), self._grad_clip)\n"))
b("tl_step","C18",(EN,"                step_idx += 1\n                self.global_train_step += 1\n                self._updater","                step_idx += 1\n                if perform_update_step:\n                    self.global_train_step += 1\n                self._updater"))
b("tl_lossavg","C18",(EN,"        accumulated_losses_dict = accumulated_losses_dict / accumulated_inv_norm_factors_dict\n        accumulated_losses_dict = self._maybe_extend_losses_info(accumulated_losses_dict)\n        self.learning_rate_control.set_epoch_error(\n            self.epoch, {f\"train","        accumulated_losses_dict = accumulated_losses_dict / accumulated_inv_norm_factors_dict.max_value()\n        accumulated_losses_dict = self._maybe_extend_losses_info(accumulated_losses_dict)\n        self.learning_rate_control.set_epoch_error(\n            self.epoch, {f\"train"))
b("tl_shared","C18",(UP,"                if RefIdEq(param) in visited_params:\n                    continue\n","                if RefIdEq(param) in visited_params and module_name:\n                    pass\n"))
b("tl_wdnone","C18",(UP,"                elif (\n                    param_name.endswith(\"bias\")","                elif custom_include_check is None and (\n                    param_name.endswith(\"bias\")"))
b("tl_wdname","C18",(UP,"                    param_name.endswith(\"bias\")","                    full_param_name.endswith(\".bias\")"))
b("tl_fc","C18",(EN,"global_train_step=self.global_train_step, epoch=self.epoch, epoch_continuous=epoch_continuous\n                )\n        except","global_train_step=step_idx if self.epoch == 1 else self.global_train_step - 1, epoch=self.epoch, epoch_continuous=epoch_continuous\n                )\n        except"))
b("fw_cut","C24",(EN,"            if any(d is not d_ for d, d_ in zip(x.dims[1:], y.dims)):  # replaced any dims?","            if len(y.dims) and y.dims[0] is not x.dims[1]:  # replaced any dims?"))
b("fw_reset","C24",(EN,"                    self._forward_step_expected_outputs.reset_content()\n","                    pass\n"))
b("fw_tag","C24",(EN,"data_loader.extend(extern_data_util.raw_dict_split_batch(extern_data_raw, splits=2))","data_loader.extend(extern_data_util.raw_dict_split_batch(extern_data_raw, splits=2)[: 2 if step_idx else 1])"))
b("fw_sort","C24",(EN,"            if not self.config.bool(\"sort_dataset\", True):\n                pass\n            elif dataset.seq_ordering == \"sorted_reverse\":","            if not self.config.bool(\"sort_dataset\", True):\n                pass\n            elif dataset.seq_ordering == \"sorted\":"))
b("ck_lastopt","C17",(EN,"            for name in [\"train\"] + list(self.eval_datasets.keys()):\n                if not self._is","            for name in [\"train\"]:\n                if not self._is"))
b("ck_skip","C17",(EN,"self.eval_model(skip_already_evaluated=True)","self.eval_model(skip_already_evaluated=len(self.eval_datasets) > 2)"))
b("ck_remap","C17",(UP,"                    map_ckpt_param_idx_to_self_param_idx[i]: s\n","                    i: s\n"))
