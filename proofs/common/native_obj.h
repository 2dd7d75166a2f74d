// When the contracts are run on the real code: a stored object whose pages and tables are distinct pages of the file, in
// any order; rarely one of them is outside the file. Uses FILE_, LEN, PS, put() and Kind of the including harness.
static uint64_t SEED;		// the contents of the file: pseudorandom
static uint64_t next() { SEED += 0x9e3779b97f4a7c15ull; uint64_t z = (SEED ^ SEED >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
static void fill_file() { for (uint64_t k = 0; k < (uint64_t)LEN * PS / 8; k++) ((uint64_t *)FILE_)[k] = next(); }
static uint64_t data_pages(bool list, uint64_t len) { return ((list ? 4 * len : len) + PS - 1) / PS; }
static uint64_t file_pages(uint64_t n, uint64_t per, bool tables) { return n + (tables ? (n + per - 1) / per : 0) + 3; }
static void place(bool tables, bool counted, uint64_t per, uint32_t block, uint64_t n, bool may_be_bad)
{
	std::vector<uint32_t> free;
	for (uint32_t k = 0; k < LEN; k++) if (k != block && k > 1) free.push_back(k);
	for (size_t k = free.size(); k > 1; k--) std::swap(free[k - 1], free[next() % k]);
	uint64_t bad = may_be_bad ? next() % (n + 1) : ~0ull, head = (uint64_t)block * PS + 24;
	uint32_t tab = 0;
	for (uint64_t q = 0; q < n; q++) {
		uint32_t page = free.back();
		free.pop_back();
		if (q == bad) page = LEN + next() % 3;
		if (!tables) put(head + 4 * q, page, 4);
		else {
			if (q % per == 0) {
				tab = free.back();
				free.pop_back();
				put(head + 4 * (q / per), tab, 4);
				if (counted) put((uint64_t)tab * PS, std::min(per, n - q), 4);
			}
			put((uint64_t)tab * PS + (counted ? 4 : 0) + 4 * (q % per), page, 4);
		}
	}
}
