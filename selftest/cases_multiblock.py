F = "quantum_graph/_multiblock.py"
CASES = [
    ("swap-read", "bad", (F, "            offset = int.from_bytes(stream.read(int_size))\n            size = int.from_bytes(stream.read(int_size))\n", "            size = int.from_bytes(stream.read(int_size))\n            offset = int.from_bytes(stream.read(int_size))\n")),
    ("swap-ctor", "bad", (F, "row.addresses.append(Address(offset, size))", "row.addresses.append(Address(size, offset))")),
    ("swap-index", "bad", (F, "        stream.write(self.key.bytes)\n        stream.write(self.index.to_bytes(int_size))\n", "        stream.write(self.index.to_bytes(int_size))\n        stream.write(self.key.bytes)\n")),
    ("row-size", "bad", (F, '        return (\n            16  # uuid\n            + int_size\n            * (\n                1  # index\n                + 2 * n_addresses\n            )\n        )\n', "        return 16 + int_size * (2 + 2 * n_addresses)\n")),
    ("header-size", "bad", (F, "            1  # int_size\n            + int_size", "            int_size")),
    ("header-swap", "bad", (F, "        stream.write(len(all_ids).to_bytes(int_size))\n        stream.write(len(self.addresses).to_bytes(int_size))\n", "        stream.write(len(self.addresses).to_bytes(int_size))\n        stream.write(len(all_ids).to_bytes(int_size))\n")),
    ("unsorted", "bad", (F, "enumerate(sorted(all_ids, key=attrgetter(\"int\")))", "enumerate(all_ids)")),
    ("sort-other", "bad", (F, "key=attrgetter(\"int\")", "key=attrgetter(\"time\")")),
    ("start-1", "bad", (F, "enumerate(sorted(all_ids, key=attrgetter(\"int\")))", "enumerate(sorted(all_ids, key=attrgetter(\"int\")), 1)")),
    ("filter-empty", "bad", (F, "[m.get(key, empty_address) for m in self.addresses]", "[m[key] for m in self.addresses if key in m]")),
    ("no-int-check", "bad", (F, "        if file_int_size != int_size:", "        if file_int_size > int_size:")),
    ("no-n-check", "bad", (F, "        if file_n_addresses != n_addresses:", "        if file_n_addresses < n_addresses:")),
    ("no-trunc", "bad", (F, "        if len(header_page_data) < header_size:", "        if not header_page_data:")),
    ("page-off", "bad", (F, "            file_offset += rows_per_page * row_size", "            file_offset += page_size")),
    ("page-off0", "bad", (F, "        file_offset = header_size\n", "        file_offset = 0\n")),
    ("page-no-trim", "bad", (F, "            self.pages[-1].n_rows -= row_index - n_rows\n", "            self.pages[-1].n_rows -= row_index - rows_per_page\n")),
    ("page-zero", "bad", (F, "rows_per_page = max(page_size // row_size, 1)", "rows_per_page = page_size // row_size")),
    ("find-gt", "bad", (F, "elif key.int >= bounds.uuid_int_end:", "elif key.int > bounds.uuid_int_end:")),
    ("find-le", "bad", (F, "            if key.int < bounds.uuid_int_begin:", "            if key.int <= bounds.uuid_int_end:")),
    ("find-mid", "bad", (F, "                right = mid - 1", "                right = mid")),
    ("find-mid2", "bad", (F, "                right = mid - 1", "                right = mid - 2")),
    ("find-strict", "bad", (F, "        while left <= right:", "        while left < right:")),
    ("find-none", "bad", (F, "        raise LookupError(f\"Address for {key} not found.\")\n\n    def", "        return None\n\n    def")),
    ("page-first", "bad", (F, "        for _ in range(1, page.n_rows):", "        for _ in range(page.n_rows):")),
    ("page-mark-early", "bad", [(F, "        page.read = True\n", ""), (F, "        row = self._read_row(page_stream)\n        uuid_int_begin", "        page.read = True\n        row = self._read_row(page_stream)\n        uuid_int_begin")]),
    ("read-all-stop", "bad", (F, "            if not page.read:\n                break", "            if page.read:\n                break")),
    ("read-all-last", "bad", (F, "        while len(self.rows) < self.n_rows:", "        for _ in range(page.n_rows):")),
    ("block-size", "bad", (F, "        block_size = len(data) + self.int_size\n", "        block_size = len(data)\n")),
    ("block-off", "bad", [(F, "        address = Address(offset=self.file_size, size=block_size)\n        self.file_size += block_size\n", "        self.file_size += block_size\n        address = Address(offset=self.file_size, size=block_size)\n")]),
    ("block-nodup", "bad", (F, "        assert id not in self.addresses, \"Duplicate write to multi-block file detected.\"\n", "")),
    ("block-record-first", "bad", [(F, "        self.addresses[id] = address\n        return address", "        return address"), (F, "        self.stream.write(len(data).to_bytes(self.int_size))\n", "        self.addresses[id] = Address(self.file_size, len(data) + self.int_size)\n        self.stream.write(len(data).to_bytes(self.int_size))\n")]),
    ("block-noseek", "bad", (F, "        self.stream.seek(address.offset)\n", "        if self.stream.seekable():\n            self.stream.seek(address.offset)\n")),
    ("block-nocheck", "bad", (F, "        if len(data) != internal_size:", "        if len(data) < internal_size:")),
    ("block-offset-none", "bad", (F, "        if not address.size:\n", "        if not address.offset:\n")),
    ("seq-eof", "bad", (F, "                size_data = buffered_stream.read(int_size)\n\n", "                size_data = buffered_stream.read(page_size)\n\n")),
    ("names", "bad", (F, "            with zf.open(f\"{name}.mb\", mode=\"w\", force_zip64=True)", "            with zf.open(f\"{name}.blocks\", mode=\"w\", force_zip64=True)")),
    ("names-tmp", "bad", (F, "zf.write(tmp.name, filename)", "zf.write(tmp.name)")),
    ("tmp-noflush", "bad", (F, "                tmp.flush()\n", "")),
    ("little", "bad", (F, "stream.write(address.size.to_bytes(int_size))", "stream.write(address.size.to_bytes(int_size, 'little'))")),
    ("no-compress", "bad", (F, "        return self.write_bytes(id, compressed_data)", "        return self.write_bytes(id, json_data)")),
    ("exclude-none", "bad", (F, "model.model_dump_json().encode()", "model.model_dump_json(exclude_none=True).encode()")),
    # ok
    ("ok-sorted", "ok", (F, "sorted(all_ids, key=attrgetter(\"int\"))", "sorted(all_ids)")),
    ("ok-lambda", "ok", (F, "sorted(all_ids, key=attrgetter(\"int\"))", "sorted(all_ids, key=lambda k: k.int)")),
    ("ok-rowsize", "ok", (F, '        return (\n            16  # uuid\n            + int_size\n            * (\n                1  # index\n                + 2 * n_addresses\n            )\n        )\n', "        n_ints = 1 + n_addresses * 2\n        return n_ints * int_size + 16\n")),
    ("ok-header", "ok", (F, '        return (\n            1  # int_size\n            + int_size  # number of rows\n            + int_size  # number of addresses in each row\n        )\n', "        return 1 + 2 * int_size\n")),
    ("ok-concat", "ok", (F, "        stream.write(self.key.bytes)\n        stream.write(self.index.to_bytes(int_size))\n", "        stream.write(self.key.bytes + self.index.to_bytes(int_size))\n")),
    ("ok-helper", "ok", [(F, "            stream.write(address.offset.to_bytes(int_size))\n            stream.write(address.size.to_bytes(int_size))\n", "            address.write(stream, int_size)\n"), (F, "    def __str__(self) -> str:\n        return f\"{self.offset", "    def write(self, stream, int_size):\n        stream.write(self.offset.to_bytes(int_size))\n        stream.write(self.size.to_bytes(int_size))\n\n    def __str__(self) -> str:\n        return f\"{self.offset")]),
    ("ok-readint", "ok", [(F, "            offset = int.from_bytes(stream.read(int_size))\n            size = int.from_bytes(stream.read(int_size))\n", "            offset = cls._int(stream, int_size)\n            size = cls._int(stream, int_size)\n"), (F, "    @classmethod\n    def read(cls, stream: IO[bytes], n_add", "    @staticmethod\n    def _int(stream, n):\n        return int.from_bytes(stream.read(n))\n\n    @classmethod\n    def read(cls, stream: IO[bytes], n_add")]),
    ("ok-inclusive", "ok", [(F, "uuid_int_end = row.key.int + 1", "uuid_int_end = row.key.int"), (F, "elif key.int >= bounds.uuid_int_end:", "elif key.int > bounds.uuid_int_end:")]),
    ("ok-mid", "ok", (F, "mid = left + ((right - left) // 2)", "mid = (left + right) // 2")),
    ("ok-range", "ok", (F, """        row_index = 0
        file_offset = header_size
        while row_index < n_rows:
            self.pages.append(AddressPage(file_offset=file_offset, begin=row_index, n_rows=rows_per_page))
            row_index += rows_per_page
            file_offset += rows_per_page * row_size
        if row_index != n_rows:
            # Last page was too big.
            self.pages[-1].n_rows -= row_index - n_rows
            assert sum(p.n_rows for p in self.pages) == n_rows, "Bad logic setting page row counts."
""", """        for begin in range(0, n_rows, rows_per_page):
            self.pages.append(AddressPage(file_offset=header_size + begin * row_size, begin=begin, n_rows=min(rows_per_page, n_rows - begin)))
""")),
    ("ok-order", "ok", [(F, "        address = Address(offset=self.file_size, size=block_size)\n        self.file_size += block_size\n", "        start = self.file_size\n        self.file_size += block_size\n        address = Address(offset=start, size=block_size)\n")]),
    ("ok-nested", "ok", (F, "            if key.int < bounds.uuid_int_begin:\n                right = mid - 1\n            elif key.int >= bounds.uuid_int_end:\n                left = mid + 1\n            else:\n", "            target = key.int\n            if target >= bounds.uuid_int_end:\n                left = mid + 1\n            elif target < bounds.uuid_int_begin:\n                right = mid - 1\n            else:\n")),
    ("ok-readbytes", "ok", (F, "        internal_size = int.from_bytes(data[: self.int_size])\n        data = data[self.int_size :]\n        if len(data) != internal_size:", "        prefix, data = data[: self.int_size], data[self.int_size :]\n        internal_size = int.from_bytes(prefix)\n        if internal_size != len(data):")),
    ("ok-page-all", "ok", (F, "        row = self._read_row(page_stream)\n        uuid_int_begin = row.key.int\n        for _ in range(1, page.n_rows):\n            row = self._read_row(page_stream)\n", "        first = row = self._read_row(page_stream)\n        for _ in range(page.n_rows - 1):\n            row = self._read_row(page_stream)\n        uuid_int_begin = first.key.int\n")),
]
