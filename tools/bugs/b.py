B=[]
def b(n,p,*e): B.append((n,p,list(e)))
D="returnn/datasets/"; P="returnn/torch/data/pipeline.py"
b("u32","C09",(P,"array = numpy.asarray(array, dtype=numpy.int64)","array = numpy.asarray(array, dtype=numpy.int32)"))
b("u16","C09",(P,"""    elif array.dtype == numpy.uint16:
        array = numpy.asarray(array, dtype=numpy.int32)""","""    elif array.dtype == numpy.uint16:
        array = numpy.asarray(array, dtype=numpy.int16)"""))
b("shuf_leak","C09",(P,"""        self._buffer.clear()
        self._next_buffer.clear()
        if self._seed""","""        self._next_buffer.clear()
        if self._seed"""))
b("shuf_next","C09",(P,"""            if len(self._buffer) < self._buffer_size:
                assert (has_ended or not self._buffer) and not self._next_buffer
                break""","""            if has_ended and len(self._next_buffer) < self._buffer_size:
                break"""))
b("bucket_right","C09",(P,"bisect.bisect_left(self","bisect.bisect_right(self"))
b("batch_cb","C09",(P,"                current_batch = [data_dict]\n                current_max_sequence_lengths = sequence_lengths","                current_batch = [data_dict]\n                current_max_sequence_lengths = NumbersDict(0)"))
b("batch_maxseqs_after","C09",(P,"            if len(current_batch) >= max_seqs:\n","            if len(current_batch) == max_seqs:\n"))
b("lenfilter_scalar","C09",(P,"            if sequence_lengths.any_compare(self._max_seq_length, lambda a, b: a > b):","            if sequence_lengths.any_compare(self._max_seq_length, lambda a, b: a >= b):"))
b("chunk_min","C09",(P,"                    if len(data[start_index : start_index + chunk_size]) >= min_chunk_size","                    if start_index == 0 or len(data[start_index : start_index + chunk_size]) >= min_chunk_size"))
b("split_trim","C24",("returnn/torch/data/extern_data.py","""        offset = 0
        for i, split_size in enumerate(splits):
            res[i][k] = v[offset : offset + split_size]
            offset += split_size""","""        offset = 0
        for i, split_size in enumerate(splits):
            res[i][k] = v[offset : offset + splits[0]]
            offset += split_size"""))
b("split_trim2","C24",("returnn/torch/data/extern_data.py","max_len = torch.max(res_[\"%s:seq_len\" % k])","max_len = res_[\"%s:seq_len\" % k][0]"))
b("mp_stale_list","C04",(D+"multi_proc.py","                            kwargs.pop(\"seq_list\", None)\n                            dataset.init_seq_order(**kwargs)","                            dataset.init_seq_order(**kwargs)"))
b("mp_cache_keep","C04",(D+"multi_proc.py","""                    got_init_seq_order = True
                    next_seq_idx = 0
                    cache[:] = []
                elif""","""                    got_init_seq_order = True
                    next_seq_idx = 0
                    if kwargs["epoch"] != 1:
                        cache[:] = []
                elif"""))
b("mp_cache_fin","C04",(D+"multi_proc.py","""                    got_init_seq_order = True
                    next_seq_idx = 0
                    cache[:] = []
                elif""","""                    if not got_init_seq_order:
                        next_seq_idx = 0
                        cache[:] = []
                    got_init_seq_order = True
                elif"""))
b("mp_frac","C04",(D+"multi_proc.py","        self._lazy_init()\n        self._cur_max_complete_frac = 0.0","        self._lazy_init()\n        if self._cur_max_complete_frac is None:\n            self._cur_max_complete_frac = 0.0"))
b("mp_epoch","C04",(D+"multi_proc.py","                worker_conn.send((\"init_seq_order\", {\"epoch\": epoch}))","                worker_conn.send((\"init_seq_order\", {\"epoch\": 1}))"))
