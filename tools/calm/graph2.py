# conflicts found by looking at the graph, as a set of pairs; the error says all of them
edits = [
("big/graph.py", '''            if self._conflicts:
                self._raise_conflicts()
            return len(self._done) < len(self.graph.nodes)
''', '''            self._check()
            return len(self.graph.nodes) > len(self._done)
'''),
("big/graph.py", '''            if self._conflicts:
                self._raise_conflicts()
            if self.graph.dirty:
                self.graph.check_for_cycles()
''', '''            self._check()
            if self.graph.dirty:
                self.graph.check_for_cycles()
'''),
("big/graph.py", '''            if self._conflicts:
                self._raise_conflicts()
            # check everything''', '''            self._check()
            # check everything'''),
("big/graph.py", '''        def _raise_conflicts(self):
''', '''        def _check(self):
            handed_out = self._yielded | self._done
            for node, (_, successors) in self.graph.nodes.items():
                if node not in self._done:
                    if not handed_out.isdisjoint(successors):
                        self._raise_conflicts()

        def _raise_conflicts(self):
'''),
("big/graph.py", '''                self._predecessors = original._predecessors.copy()
                self._ready = original._ready.copy()
                self._yielded = original._yielded.copy()
                self._done = original._done.copy()

                for n, v in original._conflicts.items():
                    self._conflicts[n] = v.copy()
                for n, v in original._reverse_conflicts.items():
                    self._reverse_conflicts[n] = v.copy()
                return
''', '''                import copy
                self._predecessors = copy.copy(original._predecessors)
                self._ready = original._ready[:]
                self._yielded = set(original._yielded)
                self._done = set(original._done)
                self._conflicts.update({n: set(v) for n, v in original._conflicts.items()})
                self._reverse_conflicts.update({n: set(v) for n, v in original._reverse_conflicts.items()})
                return
'''),
("big/graph.py", '''            self._predecessors.clear()
            self._predecessors.update(self.graph._stock_view._predecessors)
            self._ready.clear()
            self._ready.extend(self.graph._stock_view._ready)
            self._yielded.clear()
            self._done.clear()
            self._conflicts.clear()
            self._reverse_conflicts.clear()
''', '''            self._predecessors = {n: pc for n, (pc, s) in self.graph.nodes.items()}
            self._ready = [n for n, pc in self._predecessors.items() if not pc]
            self._yielded = set()
            self._done = set()
            self._conflicts = defaultdict(set)
            self._reverse_conflicts = defaultdict(set)
'''),
("big/graph.py", '''        new_nodes = []
        new_successors = []

        if not node in self.nodes:
            new_nodes.append(node)
            self.nodes[node] = nodes_dict_default()

        pc_s = self.nodes[node]
        predecessors_count, successors = pc_s

        for d in dependencies:
            if d not in self.nodes:
                new_nodes.append(d)
                self.nodes[d] = nodes_dict_default()
            d_pc, d_s = self.nodes[d]
            if node not in d_s:
                self.dirty = True
                d_s[node] = None
                predecessors_count += 1
                new_successors.append(d)

        pc_s[0] = predecessors_count

''', '''        new_nodes = [n for n in dict.fromkeys((node,) + dependencies) if n not in self.nodes]
        for n in new_nodes:
            self.nodes[n] = nodes_dict_default()
        new_successors = [d for d in dict.fromkeys(dependencies) if node not in self.nodes[d][1]]
        for d in new_successors:
            self.nodes[d][1][node] = None
        if new_successors:
            self.dirty = True
        self.nodes[node][0] += len(new_successors)

'''),
]
