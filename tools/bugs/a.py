B=[]
def b(n,p,*e): B.append((n,p,list(e)))
D="returnn/datasets/"
b("uniq_after_part","C01",(D+"basic.py","""        if partition_epoch > 1 or self._num_shards > 1:
            seq_index = self._apply_partition_epoch_and_sharding(
                seq_index, partition_epoch, epoch, self._num_shards, self._shard_index
            )
        if repeat_epoch > 1:""","""        if repeat_epoch > 1:"""),(D+"basic.py","""        if self.unique_seq_tags:
            # Note: This is as generic as possible, but requires that get_all_tags is implemented.
            all_seq_tags""","""        if partition_epoch > 1 or self._num_shards > 1:
            seq_index = self._apply_partition_epoch_and_sharding(
                seq_index, partition_epoch, epoch, self._num_shards, self._shard_index
            )
        if self.unique_seq_tags:
            # Note: This is as generic as possible, but requires that get_all_tags is implemented.
            all_seq_tags"""))
b("sbs_x2_global","C02",(D+"basic.py","random_generator.shuffle(part)  # Shuffle","numpy.random.shuffle(part)  # Shuffle"))
b("sbs_lastbin","C01",(D+"basic.py","""                if i == bins - 1:
                    part = seq_index[i * len(seq_index) // bins :][:]
                else:
                    part""","""                if i == bins - 1:
                    part = seq_index[i * (len(seq_index) // bins) :][:]
                else:
                    part"""))
b("rand_nth_partition","C02",(D+"basic.py","""        if partition_epoch > 1:
            seed = (seed - 1) // partition_epoch + 1  # taking partitions requires constant seed during full epoch
        if num_epochs_fixed > 1:
            seed = (seed - 1) // num_epochs_fixed + 1""","""        if num_epochs_fixed > 1:
            seed = (seed - 1) // num_epochs_fixed + 1
        if partition_epoch > 1:
            seed = (seed - 1) // partition_epoch + 1  # taking partitions requires constant seed during full epoch"""))
b("lens_file_cached","C02",(D+"basic.py","seq_lens = [reverse * get_seq_len(i) for i in range(num_seqs)]\n            seq_index = numpy.argsort(seq_lens, kind=\"stable\")","seq_lens = [get_seq_len(i) for i in range(num_seqs)]\n            seq_index = numpy.argsort(seq_lens, kind=\"stable\")[::reverse]"))
b("repeat_sharded","C01",(D+"basic.py","            seq_index = list(seq_index) * repeat_epoch","            seq_index = numpy.repeat(seq_index, repeat_epoch)"))
b("cd2_lessthan","C03",(D+"cached2.py","if n < self.expected_load_seq_start:","if n <= self.expected_load_seq_start and self.added_data is not None:"))
b("cd2_cleanup","C03",(D+"cached2.py","            self._cleanup_old_seqs(start)\n            self.expected_load_seq_start = start\n        if self.added_data:\n            start = max(self.added_data[-1].seq_idx + 1, start)","            self.expected_load_seq_start = start\n            self._cleanup_old_seqs(start - 1)\n        if self.added_data:\n            start = self.added_data[-1].seq_idx + 1"))
b("cd2_numseqs_probe","C03",(D+"cached2.py","            self._num_seqs = self.added_data[-1].seq_idx + 1\n            assert n >= self._num_seqs","            self._num_seqs = n"))
