B=[]
def b(n,p,*e): B.append((n,p,list(e)))
H="returnn/datasets/hdf.py"; A="returnn/datasets/basic.py"; PP="returnn/datasets/postprocessing.py"; FC="returnn/util/file_cache.py"; U="returnn/util/basic.py"; LC="returnn/util/lru_cache.py"
b("hdf_reinit","C07",(H,"            for data_key_idx_0, data_key_ in enumerate(sorted(self._prepared_extra)):\n                self._seq_lengths[seq_idx, data_key_idx_0 + 1] = self._extra_num_time_steps[data_key_]\n","            pass\n"))
b("hdf_sizes","C07",(H,"            if len(seq_len) > 1:\n","            if len(seq_len) > 1 and n_batch > 0 and flat_seq_len > 1:\n"))
b("hdf_extsteps","C07",(H,"                self._extra_num_time_steps[data_key] = data.shape[0]\n                self._prepared_extra","                self._extra_num_time_steps[data_key] = int(self._seq_lengths[:, 1].sum())\n                self._prepared_extra"))
b("hdf_move","C07",(H,"            shutil.copyfile(self.tmp_filename, tmp_dest_filename)\n            shutil.move(tmp_dest_filename, self.filename)","            shutil.copyfile(self.tmp_filename, self.filename)"))
b("hdf_tag","C07",(H,"self._seq_tags[seqlen_offset + i] = numpy.array(seq_tag[i], dtype=self._seq_tags.dtype)","self._seq_tags[seqlen_offset + i] = numpy.array(seq_tag[i][:256], dtype=self._seq_tags.dtype)"))
b("hdf_off","C07",(H,"self._datasets[name][self._file.attrs[\"numTimesteps\"] :] = raw_data","self._datasets[name][-raw_data.shape[0] :] = raw_data"))
b("bt_pad","C08",(A,"(dt * ds - batch.get_total_num_frames() - length).any_compare(","(dt * ds - batch.get_total_num_frames()).any_compare("))
b("bt_minlen","C08",(A,"if length.any_compare(min_seq_length, (lambda a, b: a < b)):\n                    continue","if length.any_compare(min_seq_length, (lambda a, b: a <= b and a < 2)):\n                    continue"))
b("bt_last","C08",(A,"        if batch.get_all_slices_num_frames().max_value() > 0:\n            yield batch","        if batch.get_all_slices_num_frames().max_value() > 0 and batch.get_num_seqs() > 0 and total_num_seqs <= max_total_num_seqs:\n            yield batch"))
b("bt_chunkmin","C08",(A,"                    if any(\n                        [\n                            length[key] - t[key]","                    if all(\n                        [\n                            length[key] - t[key]"))
b("bt_full","C08",(A,"                    for key in keys_with_full_seqs:\n                        chunk_start[key] = 0\n","                    for key in keys_with_full_seqs:\n"))
b("bt_neg","C08",(A,'max_seq_length = {"classes": -max_seq_length}','max_seq_length = -max_seq_length'))
b("bt_frames","C08",(A,"                    t_start += num_frames\n","                    t_start = t_start + num_frames.max_value()\n"))
b("pp_rng","C10",(PP,"self._rng = RandomState(self._get_random_seed_for_epoch(epoch=epoch))","self._rng = RandomState(self._get_random_seed_for_epoch(epoch=epoch)) if epoch != getattr(self, '_last_ep', None) else self._rng; self._last_ep = epoch"))
b("pp_lap_frac","C10",(PP,"            for sorted_item, comp_frac in zip(seq_buffer, complete_frac_values):","            for sorted_item, comp_frac in zip(seq_buffer, sorted(complete_frac_values, key=float) if is_down_phase else []):"))
b("pp_lap_end","C10",(PP,"            if len(seq_buffer) < self.num_seqs_per_bin:\n                assert has_ended and not next_seq_buffer\n                break","            if has_ended:\n                break"))
b("pp_lap_down","C10",(PP,"            is_down_phase = not is_down_phase\n","            is_down_phase = not is_down_phase and len(next_seq_buffer) == self.num_seqs_per_bin\n"))
b("pp_tagre","C10",(PP,'                if "seq_tag" not in tensor_dict.data:\n','                if "seq_tag" not in tensor_dict.data or self._map_outputs:\n'))
b("pp_skip","C10",(PP,"            if loaded_seq_idx != seq_idx:\n                continue","            if loaded_seq_idx + 1 < seq_idx:\n                continue"))
b("pp_presall","C10",(PP,'return all(getattr(f, "preserves_num_seqs", False) for f in self.funcs)','return any(getattr(f, "preserves_num_seqs", False) for f in self.funcs)'))
b("fc_info","C11",(FC,"                orig_mtime_ns = os.stat(src_filename).st_mtime_ns\n                FileInfo(mtime_ns=orig_mtime_ns).save(self._get_info_filename(dst_filename))\n\n                try:\n                    _copy_with_prealloc(src_filename, dst_tmp_filename)\n","                try:\n                    _copy_with_prealloc(src_filename, dst_tmp_filename)\n                    FileInfo(mtime_ns=os.stat(src_filename).st_mtime_ns).save(self._get_info_filename(dst_filename))\n"))
b("fc_size","C11",(FC,"            src_stat.st_size != dst_stat.st_size\n            or last","            src_stat.st_size > dst_stat.st_size\n            or last"))
b("fc_sec","C11",(FC,"or src_stat.st_mtime_ns > last_known_mtime_ns","or src_stat.st_mtime_ns // 10**9 > last_known_mtime_ns // 10**9"))
b("fc_rel","C11",(FC,"            self.files[filename] -= 1\n            if self.files[filename] <= 0:\n                del self.files[filename]","            del self.files[filename]"))
b("fc_infotouch","C11",(FC,"self._touch_files_thread.files_extend([dst_filename, info_file])","self._touch_files_thread.files_extend([dst_filename])"),(FC,"self._touch_files_thread.files_remove(fn_ for fn in filenames for fn_ in [fn, self._get_info_filename(fn)])","self._touch_files_thread.files_remove(filenames)"))
b("fc_sort","C11",(FC,"        all_files.sort()\n","        all_files.sort(key=lambda x: (x[1], x[0]))\n"))
b("fc_enospc","C11",(FC,"                    if os.path.exists(dst_tmp_filename):\n                        os.remove(dst_tmp_filename)\n                    raise","                    raise"))
b("fc_want","C11",(FC,"if cur_time - mtime > self._cleanup_files_wanted_older_than_days * 60 * 60 * 24:","if cur_time - mtime > self._cleanup_files_wanted_older_than_days * 60 * 60:"))
b("fc_expfree","C11",(FC,"                    cur_expected_free -= size\n","                    pass\n"))
b("fc_trunc","C11",(FC,"        dst_file.truncate(file_size)\n","        dst_file.truncate(min(file_size, os.stat(src).st_size))\n"))
b("lk_abs","C12",(U,"if mtime and (abs(time.time() - mtime) > self.lock_timeout):","if mtime and (time.time() - mtime >= self.lock_timeout - 1):"))
b("lk_islocked","C12",(U,"        if self.is_old_lockfile():\n            return False\n        try:\n            return os.path.exists(self.lockfile)","        try:\n            return os.path.exists(self.lockfile)"))
b("lk_excl","C12",(U,"self.fd = os.open(self.lockfile, os.O_CREAT | os.O_EXCL | os.O_RDWR)","assert not os.path.exists(self.lockfile) or self._raise_eexist()\n                self.fd = os.open(self.lockfile, os.O_CREAT | os.O_RDWR)"),(U,"    def maybe_remove_old_lockfile(self):","    def _raise_eexist(self):\n        import errno\n        raise OSError(errno.EEXIST, 'exists')\n\n    def maybe_remove_old_lockfile(self):"))
b("lk_unlock","C12",(U,"        os.close(self.fd)\n        os.remove(self.lockfile)\n\n    def __enter__","        os.close(self.fd)\n        if self.is_old_lockfile():\n            return\n        os.remove(self.lockfile)\n\n    def __enter__"))
b("lk_enoent","C12",(U,"if exc.errno not in [errno.ENOENT, errno.EEXIST]:\n                    raise  # Other error, so reraise.","if exc.errno not in [errno.EEXIST]:\n                    raise  # Other error, so reraise."))
b("lru_popfull","C13",(LC,"                del cache[oldkey]\n                full = cache_len() >= maxsize\n                return oldvalue\n            if fallback","                del cache[oldkey]\n                return oldvalue\n            if fallback"))
b("lru_peekmove","C13",(LC,"                if update_statistics:\n                    hits += 1\n                return link[RESULT]","                if update_statistics:\n                    hits += 1\n                    link[PREV][NEXT] = link[NEXT]\n                    link[NEXT][PREV] = link[PREV]\n                    last = root[PREV]\n                    last[NEXT] = root[PREV] = link\n                    link[PREV], link[NEXT] = last, root\n                return link[RESULT]"))
b("lru_set","C13",(LC,"                cache_pop(*args, fallback=None, **kwargs)  # replace any existing entry\n","                if full:\n                    cache_pop_oldest(fallback=None)\n                cache_pop(*args, fallback=None, **kwargs)  # replace any existing entry\n"))
b("lru_typedkw","C13",(LC,"        if kwds:\n            key += _tuple(_type(v) for v in kwds.values())  # noqa","        if kwds and not args:\n            key += _tuple(_type(v) for v in kwds.values())  # noqa"))
b("lru_mark","C13",(LC,"        key += _kwd_mark\n        for","        for"))
b("lru_none","C13",(LC,"            elif full:\n                # Use","            elif full and result is not None:\n                # Use"))
b("lru_clearfull","C13",(LC,"            hits = misses = 0\n            full = False\n\n    def cache_par","            hits = misses = 0\n\n    def cache_par"))
