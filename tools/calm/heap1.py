edits = [
("big/heap.py", '''        self._queue.remove(o)
        heapify(self._queue)
        self._version += 1
''', '''        q = self._queue
        index = q.index(o)
        last = q.pop()
        if index < len(q):
            q[index] = last
            heapify(q)
        self._version += 1
'''),
("big/heap.py", '''        i = list(i)
        queue = self._queue + i
        heapify(queue)
        self._queue = queue
        self._version += 1
''', '''        i = list(i)
        self._queue = sorted([*self._queue, *i])
        self._version += 1
'''),
("big/heap.py", '''        self._queue.clear()
        self._version += 1
''', '''        self._queue = []
        self._version += 1
'''),
("big/heap.py", '''        queue = list(self._queue)
        queue.sort()
        return queue
''', '''        return sorted(self._queue)
'''),
("big/heap.py", '''            self._copy = heap._queue.copy()
''', '''            self._copy = list(heap._queue)
'''),
("big/heap.py", '''            if not self._copy:
                raise StopIteration
            return heappop(self._copy)
''', '''            try:
                return heappop(self._copy)
            except IndexError:
                raise StopIteration from None
'''),
("big/heap.py", '''        elif item == 0:
            return self._queue[0]
        elif item == -1:
            if not self._queue:
                raise IndexError("heap index out of range")
            return max(self._queue)
        elif 0 < item < 10:
            l = nsmallest(item + 1, self._queue)
            return l[item]
        elif -10 < item < 0:
            # nlargest returns the largest... IN REVERSE ORDER.  *smh*
            l = nlargest(-item, self._queue)
            if len(l) < -item:
                raise IndexError("heap index out of range")
            return l[-1]
''', ''),
]
