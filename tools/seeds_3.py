SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="queue-moved-from-keeps-count", property="U01", file="vector_queue.hpp",
 edits=[("				other.m_head     = 0;\n				other.m_count    = 0;\n", "				other.m_head     = 0;\n")],
 needs="a queue whose content was assigned away by moving, asked what it holds",
 breaks="it still claims its elements, and gives references to nowhere",
 demo=r'''
#include <stdex/vector_queue.hpp>
#include <utility>
int main()
{
	stdex::vector_queue<int> q(3), a(2);
	for (int i = 1; i <= 5; i++) q.push_back(i);
	a = std::move(q);
	for (size_t i = 0; i < 3; i++) if (a[i] != (int)i + 3) return 1;
	return q.empty() && q.size() == 0 && q.capacity() == 0 ? 0 : 1;
}
''')

seed(id="memory-file-grow-failed", property="U10", file="stream.hpp",
 edits=[("				auto data = reinterpret_cast<uint8_t*>(realloc(m_data, reserved));\n				if (!data && reserved) _Unlikely_ {", "				m_data = reinterpret_cast<uint8_t*>(realloc(m_data, reserved));\n				if (!m_data && reserved) _Unlikely_ {"),
        ("				m_data = data;\n				if (reserved < m_size)", "				if (reserved < m_size)")],
 needs="a memory file that cannot grow, read again afterwards",
 breaks="the content is leaked and the file reads from nowhere",
 demo=r'''
#include <stdex/stream.hpp>
#include <stdint.h>
#include <string.h>
int main()
{
	stdex::stream::memory_file f;
	f.write("content", 7);
	f.reserve(SIZE_MAX / 4);
	if (f.ok()) return 0; // that much memory, really?
	char b[8] = {};
	f.seekbeg(0);
	if (!f.data()) return 1;
	return f.read(b, 7) == 7 && !strcmp(b, "content") ? 0 : 1;
}
''')

seed(id="pool-item-of-failed-push", property="U10", file="pool.hpp",
 edits=[("			ne.list.push_front(std::move(r));", "			T item(std::move(r));\n			ne.list.push_front(std::move(item));")],
 needs="an item pushed when there is no memory for it",
 breaks="the item is destroyed instead of left with its owner",
 demo=r'''
#include <memory>
#include <new>
#include <stdlib.h>
static bool out;
void* operator new(size_t n) { void* p = out ? nullptr : malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#include <stdex/pool.hpp>
int main()
{
	stdex::pool<std::unique_ptr<int>> p;
	p.push(std::unique_ptr<int>(new int(1)), 0);
	std::unique_ptr<int> i(new int(2));
	bool threw = false;
	out = true;
	try { p.push(std::move(i), 0); } catch (const std::bad_alloc&) { threw = true; }
	out = false;
	if (!threw) return 1;
	if (!i || *i != 2) return 1;
	auto x = p.pop(0);
	return x && *x == 1 && !p.pop(0) ? 0 : 1;
}
''')

seed(id="pipe-counts-before-memory", property="U10", file="stream.hpp",
 edits=[("					auto n = reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]);\n", "					m_size += length;\n					auto n = reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]);\n"),
        ("					memcpy(n->data, data, length);\n					m_size += length;\n", "					memcpy(n->data, data, length);\n")],
 needs="a write to a FIFO that gets no memory",
 breaks="size() counts bytes that are not there",
 demo=r'''
#include <new>
#include <stdlib.h>
static bool out;
void* operator new(size_t n) { void* p = out ? nullptr : malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#include <stdex/stream.hpp>
int main()
{
	stdex::stream::fifo f;
	f.write("abc", 3);
	out = true; f.write("defgh", 5); out = false;
	if (f.ok()) return 1;
	return f.size() == 3 ? 0 : 1;
}
''')
