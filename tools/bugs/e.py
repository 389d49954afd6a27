B=[]
def b(n,p,*e): B.append((n,p,list(e)))
D="returnn/datasets/distrib_files.py"; M="returnn/datasets/meta.py"; L="returnn/learning_rate_control.py"
b("df_seed","C05",(D,"rnd_seed = self._get_random_seed_for_epoch(full_epoch_0idx_ * self.partition_epoch + 1)","rnd_seed = self._get_random_seed_for_epoch(ep_)"))
b("df_restart","C05",(D,"if k < epoch or (k == epoch and worker.delivered_seqs):","if k < epoch:"))
b("df_base","C05",(D,"self_index_end = self_index_base + self.partition_epoch\n","self_index_end = min(self_index_base + self.partition_epoch, len(self.files))\n"))
b("df_key","C05",(D,'return ":".join(tree.flatten(t))','return tree.flatten(t)[0]'))
b("df_cache","C05",(D,"            if k < full_epoch_0idx:\n                del self._files_order_cache[k]","            if k < full_epoch_0idx - 1:\n                del self._files_order_cache[k]"))
b("df_workername","C05",(D,"                epoch=ep_,\n                full_epoch","                epoch=epoch,\n                full_epoch"))
b("df_free","C05",(D,"            if self.epoch in self._workers:\n                worker = self._workers.pop(self.epoch)\n                worker.exit()","            pass"))
b("df_seqidx","C05",(D,"        if not seq:\n            return None\n        seq.seq_idx = seq_idx","        if not seq:\n            return None"))
b("df_shard0","C05",(D,'dataset_dict = {"_num_shards": 1, "_shard_index": 0, **dataset_dict}\n','dataset_dict = dict(dataset_dict)\n'))
b("comb_offset","C06",(M,"epoch_offset = ((epoch - 1) * sampling_size) % self.datasets","epoch_offset = ((epoch - 1) * sampling_size) % max(self.datasets[dataset_key].num_seqs - sampling_size + 1, 1) % self.datasets"))
b("comb_reinit","C06",(M,"        need_reinit = (\n            self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0 or bool(self.added_data)\n        )\n        num_seqs_saved","        need_reinit = (\n            self.epoch is None or self.epoch != epoch or self.expected_load_seq_start > 0\n        )\n        num_seqs_saved"))
b("comb_load","C06",(M,"            sub_start, sub_end = min(sub_requested_seqs), max(sub_requested_seqs)\n            dataset.load_seqs(sub_start, sub_end + 1)","            sub_start, sub_end = sub_requested_seqs[0], len(sub_requested_seqs)\n            dataset.load_seqs(sub_start, max(sub_end, sub_start + 1))"))
b("cs_pad","C06",(M,"                    if len_diff > 0:\n                        # if data longer than ref_data * frame_rate, narrow the data\n                        data = data[:-len_diff]","                    if len_diff > 0:\n                        # if data longer than ref_data * frame_rate, narrow the data\n                        data = data[len_diff:]"))
b("cs_rep","C06",(M,"[data] + [data[-1:]] * (multiple - data.shape[0] % multiple), axis=0)\n                        assert data.shape[0] % multiple == 0","[data] + [data[:1]] * (multiple - data.shape[0] % multiple), axis=0)\n                        assert data.shape[0] % multiple == 0"))
b("cs_post","C06",(M,"if key in self.remove_in_between_postfix and sub_seq_idx != sub_seq_idxs[-1]:","if key in self.remove_in_between_postfix and sub_seq_idx != sub_seq_idxs[-1] and len(data) > 1:"))
b("me_epoch","C06",(M,"self._dataset.init_seq_order(epoch=self._cur_inner_start_epoch + self._cur_inner_epoch_offset)","self._dataset.init_seq_order(epoch=epoch_)"),(M,"            self._cur_inner_epoch_offset += 1\n            if self._cur","            self._cur_inner_epoch_offset += 1\n            epoch_ = max(self._cur_inner_start_epoch, self._cur_inner_epoch_offset + 1)\n            if self._cur"))
b("me_predef","C06",(M,"self._epoch_have_predefined_seq_order = bool(seq_list or seq_order)","self._epoch_have_predefined_seq_order = bool(seq_list)"))
b("ew_filter","C06",(M,"            if ep_start <= epoch <= ep_end:\n","            if ep_start <= epoch < ep_end:\n"))
b("ew_keep","C06",(M,"seq_order = [seq_idx for seq_idx in seq_order if seq_idx in selected_seq_idxs]","seq_order = sorted(selected_seq_idxs)"))
b("meta_pre","C06",(M,"            or self._seq_list_ordered_is_predefined\n            or seq_list","            or seq_list"))
b("meta_ctrl","C06",(M,"seq_index = [self.tag_idx[tag] for tag in seq_list]","seq_index = sorted({self.tag_idx[tag] for tag in seq_list}, key=[self.tag_idx[tag] for tag in seq_list].index)"))
b("chunksh_end","C06",(M,"self._add_more_until(end + self.chunk_shuffle_cache, shuffle=True)","self._add_more_until(end + self.chunk_shuffle_cache - 1, shuffle=True)"))
b("concat_off","C06",(M,"        for dataset_num_seqs in num_seqs_per_subset:\n            dataset_seq_idx_boundaries.append(dataset_num_seqs + dataset_seq_idx_boundaries[-1])","        for dataset_num_seqs in num_seqs_per_subset:\n            dataset_seq_idx_boundaries.append(max(dataset_num_seqs, 1) + dataset_seq_idx_boundaries[-1])"))
b("lr_min","C15",(L,"            if learning_rate < self.min_learning_rate:\n                learning_rate = self.min_learning_rate\n        if grow:","            learning_rate = max(learning_rate, self.min_learning_rate, 1e-4)\n        if grow:"))
b("lr_abs","C15",(L,"denom = abs(old_error if self.relative_error_div_by_old else new_error)","denom = old_error if self.relative_error_div_by_old else new_error"))
b("lr_keys","C15",(L,"        if old_key != new_key:\n            return None","        if old_key != new_key and not isinstance(self.error_measure_key, list):\n            return None"))
b("lr_save","C15",(L,"        os.rename(tmp_filename, self.filename)","        import shutil\n        shutil.copyfile(tmp_filename, self.filename)\n        os.remove(tmp_filename)"))
b("lr_nan","C15",(L,'"nan": float("nan"), "inf": float("inf"), "np": numpy})','"nan": float("inf"), "inf": float("inf"), "np": numpy})'))
b("lr_upd","C15",(L,"if self.update_interval > 1 and epoch % self.update_interval != 1:","if self.update_interval > 1 and (epoch - 1) % self.update_interval and epoch > self.update_interval:"))
b("lr_multi","C15",(L,"num_epochs=self.num_epochs + 1)","num_epochs=self.num_epochs)"))
b("lr_minep","C15",(L,"if len(set(last_lrs)) >= 2 or 0 < len(last_lrs) < self.min_num","if len(set(last_lrs)) >= 2 or 1 < len(last_lrs) < self.min_num"))
b("lr_setdef","C15",(L,"            if not self.epoch_data[epoch].learning_rate:\n                self.epoch_data","            if not self.epoch_data[epoch].learning_rate or not self.epoch_data[epoch].error:\n                self.epoch_data"))
b("lr_relrel","C15",(L,"exclude_current=False)\n            if learning_rate > 0:","exclude_current=True)\n            if learning_rate > 0:"))
b("lr_best","C15",(L,"return min(values)[1]","return min(values, key=lambda x: (x[0], -x[1]))[1]"))
b("lr_lastn","C15",(L,"        if only_last_n >= 1:\n            values = values[-only_last_n:]\n        values = [(v, ep) for (v, ep) in values if v + min_score_dist < latest_score]","        values = [(v, ep) for (v, ep) in values if v + min_score_dist < latest_score]\n        if only_last_n >= 1:\n            values = values[-only_last_n:]"))
b("lr_meta","C15",(L,'if any(k for k in error if k.startswith(":meta:")):','if meta:\n                meta = {}\n            if any(k for k in error if k.startswith(":meta:")):'))
