# kept as a sorted list, iteration by index
edits = [
("big/heap.py", '''            self._queue = list(i)
            heapify(self._queue)
''', '''            self._queue = sorted(i)
'''),
("big/heap.py", '''        heappush(self._queue, o)
''', '''        import bisect
        bisect.insort_right(self._queue, o)
'''),
("big/heap.py", '''        i = list(i)
        queue = self._queue + i
        heapify(queue)
        self._queue = queue
''', '''        self._queue = sorted(self._queue + list(i))
'''),
("big/heap.py", '''        self._queue.remove(o)
        heapify(self._queue)
''', '''        self._queue.remove(o)
'''),
("big/heap.py", '''        o = heappop(self._queue)
        self._version += 1
        return o
''', '''        o = self._queue.pop(0)
        self._version += 1
        return o
'''),
("big/heap.py", '''        o = heappushpop(self._queue, o)
        self._version += 1
        return o
''', '''        queue = sorted(self._queue + [o])
        o = queue.pop(0)
        self._queue = queue
        self._version += 1
        return o
'''),
("big/heap.py", '''        o = heapreplace(self._queue, o)
        self._version += 1
        return o
''', '''        if not self._queue:
            raise IndexError("heap is empty")
        queue = sorted(self._queue[1:] + [o])
        o = self._queue[0]
        self._queue = queue
        self._version += 1
        return o
'''),
]
