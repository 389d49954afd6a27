B=[]
def b(n,p,*e): B.append((n,p,list(e)))
BP="returnn/util/bpe.py"; V="returnn/datasets/util/vocabulary.py"; L="returnn/datasets/lm.py"
b("bpe_skip","C28",(BP,"                    new_word.append(first + second)\n                    i += 2","                    new_word.append(first + second)\n                    i += 2 if first != second else 2 + (i + 2 < len(word) - 1 and word[i + 2] == first and word[i + 3] != second)"))
b("bpe_cache","C28",(BP,"self._bpe_encode_cache[orig] = word\n        return word","self._bpe_encode_cache[orig[:6]] = word\n        return word"),(BP,"if orig in self._bpe_encode_cache:\n            return self._bpe_encode_cache[orig]","if orig[:6] in self._bpe_encode_cache:\n            return self._bpe_encode_cache[orig[:6]]"))
b("bpe_dups","C28",(BP,"in reversed(list(enumerate(self._bpe_codes)))","in list(enumerate(self._bpe_codes))"))
b("bpe_final","C28",(BP,"for item in self._recursive_split(right, bpe_codes, vocab, separator, final):","for item in self._recursive_split(right, bpe_codes, vocab, separator, False):"))
b("bpe_strip","C28",(BP,"""            word = word[:-1] + (word[-1].replace("</w>", ""),)""","""            word = word[:-1] + (word[-1].rstrip("</w>"),)"""))
b("bpe_breaklen","C28",(BP,"            if len(word) == 1:\n                break","            if len(word) <= 2 and word[-1] == \"</w>\":\n                break\n            elif len(word) == 1:\n                break"))
b("dfs_dead","C28",(BP,"        while self.hyps and self.final_bpe_seq is None:\n","        n = 0\n        while self.hyps and self.final_bpe_seq is None and n <= 2 * len(self.word):\n            n += 1\n"))
b("dfs_final_first","C28",(BP,"            if hyp.cur_node.finished:\n                self.final_bpe_seq = hyp.bpe_sym_history","            if hyp.cur_node.finished and self.final_bpe_seq is None:\n                self.final_bpe_seq = hyp.bpe_sym_history"))
b("css_dup","C28",(BP,"            if self.opts.word_prefix_symbol is not None and hyp.cur_node.finished:\n                next_node = self.bpe.arcs.get(char)\n                if next_node:\n                    new_hyps","            if self.opts.word_prefix_symbol is not None and hyp.cur_node.finished and hyp.cur_node.prefix != self.opts.word_prefix_symbol:\n                next_node = self.bpe.arcs.get(char)\n                if next_node:\n                    new_hyps"))
b("dfs_prefix","C28",(BP,"        if self.opts.word_prefix_symbol is not None and hyp.cur_node.finished:\n            next_node = self.bpe.arcs.get(char)","        if self.opts.word_prefix_symbol is not None and hyp.cur_node.finished and hyp.pos:\n            next_node = self.bpe.arcs.get(char)"))
b("unk_post","C28",(V,"        if self.unknown_label is not None:\n            return [self._vocab.get(k, self.unknown_label_id) for k in seq]","        if self.unknown_label_id:\n            return [self._vocab.get(k, self.unknown_label_id) for k in seq]"))
b("special_prec","C28",(V,"            if eos_label is None:\n                eos_label","            if eos_label is None or \"eos_label\" in special_symbols:\n                eos_label"))
b("special_zero","C28",(V,"            if bos_label is None:\n                bos_label","            if not bos_label:\n                bos_label"))
b("valid_neg","C28",(V,"return 0 <= idx < len(self._labels)","return idx < len(self._labels)"))
b("lines_strip","C28",(V,"d = {line: i for (i, line) in enumerate(lines)}","d = {line: i for (i, line) in enumerate(sorted(lines) if len(lines) > 12 else lines)}"))
b("vocab_sort","C28",(V,"self._labels = [label for (idx, label) in sorted(labels.items())]","self._labels = list(d)"))
b("utf8_len","C28",(V,"            seq = list(sentence.encode(\"utf8\"))\n        else:","            seq = list(sentence.encode(\"utf8\", errors=\"replace\").replace(b\"\\xef\\xbf\\xbd\", b\"?\"))\n        else:"))
b("char_strip","C28",(V,"            seq = [self._vocab.get(k, self.unknown_label_id) for k in sentence]\n        else:","            seq = [self._vocab.get(k, self.unknown_label_id) for k in sentence.strip()]\n        else:"))
b("post_alias","C28",(V,"        segments = sentence.split()\n        return self.get_seq_indices(segments) + self.seq_postfix","        segments = sentence.split()\n        if not segments:\n            return []\n        return self.get_seq_indices(segments) + self.seq_postfix"))
b("sbpe_seed","C28",(V,"        self.rnd.seed(seed)","        self.rnd.seed(seed + id(self) % 2)"))
b("lm_dtype","C28",(L,"elif num_labels <= 2**8:","elif num_labels <= 2**8 + 2**7:"))
b("lm_dtype2","C28",(L,"        elif num_labels <= 2**7:","        elif num_labels <= 2**8 - 1:"))
b("lm_tagskip","C28",(L,"seq_tag = self._tag_prefix + str(true_idx)","seq_tag = self._tag_prefix + str(true_idx - self.num_skipped)"))
b("lm_delay","C28",(L,"self.orth_symbols_map[self.delayed_seq_data_start_symbol]], data[:-1])","self.orth_symbols_map[self.delayed_seq_data_start_symbol]], data[:-1] if data[0] else data[1:])"))
b("lm_collapse","C28",(L,"orth_syms[i : i + 2] = [space_symbol]  # collapse two spaces\n                        else:\n                            i += 1","orth_syms[i : i + 2] = [space_symbol]  # collapse two spaces\n                        i += 1"))
b("lm_unkmap","C28",(L,"[self.unknown_symbol] if self.unknown_symbol is not None else []","[self.unknown_symbol] if self.unknown_symbol is not None else [orth_sym[:1]] if len(orth_sym) > 1 and orth_sym[:1] in self.orth_symbols_map else []"))
b("lm_tmpidx","C28",(L,"            tmp_file_orth_files_index = len(self._orth_files)\n","            tmp_file_orth_files_index = 0 if not self._orth_files else 1\n"))
b("lm_len","C28",(L,"orths.append((tmp_file_orth_files_index, tmp_file_offset, len(line)))\n            tmp_file.write(line)","orths.append((tmp_file_orth_files_index, tmp_file_offset, len(line.decode('utf8'))))\n            tmp_file.write(line)"))
b("lm_skipempty","C28",(L,"if line_len or not self._skip_empty_lines:","if line_len > 1 or not self._skip_empty_lines:"))
b("tr_factor","C28",(L,"                self._data[data_keys[i]].extend(data_)","                self._data[data_keys[i]].extend(data_ if len(data_) < 6 else data_[:5] + data_[5:][::-1])"))
b("tr_unkglobal","C28",(L,"unknown_label_id = vocab[self._unknown_label[data_key]]\n            words_idxs","unknown_label_id = vocab[self._unknown_label[data_key]] if data_key != \"classes\" or not self.source_only else 0\n            words_idxs"))
b("tr_postfix","C28",(L,"                words_this_factor = words_this_factor + [postfix.strip()]\n","                words_this_factor = words_this_factor + [postfix.strip()] if i == 0 or words_this_factor else words_this_factor\n"))
