# depth first search in cycle(), ready as a dict, done() in a loop, remove by the successor lists
edits = [
("big/graph.py", '''        counts = {node: value[0] for node, value in self.nodes.items()}
        done = set()
        _ready = {node for node, count in counts.items() if not count}
        while _ready:
            done |= _ready
            _ready2 = set()
            for node in _ready:
                successors = self.nodes[node][1]
                for successor in successors:
                    counts[successor] -= 1
                    if not counts[successor]:
                        _ready2.add(successor)
            _ready = _ready2

        if len(done) == len(counts):
            # no cycles!
            self.dirty = False
            return None
''', '''        counts = {}
        stack = []
        for node, (count, _) in self.nodes.items():
            counts[node] = count
            if count == 0:
                stack.append(node)
        done = set()
        while stack:
            node = stack.pop()
            done.add(node)
            for successor in self.nodes[node][1]:
                counts[successor] = count = counts[successor] - 1
                if count == 0:
                    stack.append(successor)

        if len(done) == len(counts):
            # no cycles!
            self.dirty = False
            return None
'''),
("big/graph.py", '''        nodes = set(self.nodes) - done

''', '''        nodes = [node for node in self.nodes if node not in done]

'''),
("big/graph.py", '''            for node in nodes:
                # print("CALL _mark_node_done", node, self.graph.nodes[node])
                self._mark_node_done(node, self.graph.nodes[node][1])
            nodes = set(nodes)
            self._done |= nodes
            self._yielded -= nodes
''', '''            for node in nodes:
                successors = self.graph.nodes[node][1]
                self._mark_node_done(node, successors)
                self._done.add(node)
                self._yielded.discard(node)
'''),
("big/graph.py", '''            self._yielded.update(self._ready)
            ready = list(self._ready)
            self._ready.clear()
            return tuple(ready)
''', '''            ready, self._ready = self._ready, []
            self._yielded |= set(ready)
            return tuple(ready)
'''),
("big/graph.py", '''            if predecessor_count:
            # we have''' if False else '''        if predecessor_count:
            # we have to iterate over all nodes in the graph
            # until we find all predecessors.
            for n, pc_s in self.nodes.items():
                pc, s = pc_s
                if node in s:
                    predecessor_count -= 1
                    predecessors.append(n)
                    # early exit! on average, O(N * 0.5) ;-)
                    # phew!
                    if not predecessor_count:
                        break
''', '''        if predecessor_count:
            predecessors.extend(n for n, (pc, s) in self.nodes.items() if node in s)
'''),
("big/graph.py", '''            # if "node" is already done (it's C), successor isn't waiting for it.
            if conflict_1 and (successor not in self._done):
                self._predecessors[successor] += 1
                if self._predecessors[successor] == 1:
                    try:
                        # why "try" here?
                        # successor might be yielded or done.
                        # (in which case we must be conflicted.)
                        self._ready.remove(successor)
                    except ValueError:
                        pass
''', '''            if not conflict_1 or (successor in self._done):
                return
            self._predecessors[successor] += 1
            if successor in self._ready:
                self._ready.remove(successor)
'''),
("big/graph.py", '''            while v:
                ready = v.ready()
                yield from ready
                v.done(*ready)
        finally:
''', '''            while True:
                if not v:
                    return
                for node in v.ready():
                    yield node
                    v.done(node)
        finally:
'''),
]
