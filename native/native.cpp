// C interface (loaded with ctypes) to the parts of higra's C++ headers that the Python module does not expose.
#include "higra/structure/fibonacci_heap.hpp"
#include "higra/structure/unionfind.hpp"
#include "higra/structure/details/range_minimum_query.hpp"
#include "higra/structure/embedding.hpp"
#include "higra/structure/tree_graph.hpp"
#include "higra/graph.hpp"
#include "higra/sorting.hpp"
#include "higra/algo/tree.hpp"
#include "higra/io/pnm_io.hpp"
#include "xtensor/views/xview.hpp"
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>

using hg::index_t;

namespace {
    std::string last_error;

    template<typename F>
    int64_t guarded(F f) {
        try {
            return f();
        } catch (const std::exception &e) {
            last_error = e.what();
            return -1000;
        } catch (...) {
            last_error = "unknown exception";
            return -1000;
        }
    }

    struct item {
        int64_t value;
        int64_t id;

        bool operator<(const item &o) const { return value < o.value; }
    };

    using heap_t = hg::fibonacci_heap<item>;

    struct heaps {
        std::vector<std::unique_ptr<heap_t>> h;
        std::vector<heap_t::value_handle> handles;
        std::vector<item> last;
    };
}

#define API extern "C" __attribute__((visibility("default")))

API const char *native_error() { return last_error.c_str(); }

/* ---------------------------------------------------------------- heaps */

API void *heaps_new(int64_t k) {
    auto *s = new heaps();
    for (int64_t i = 0; i < k; ++i)
        s->h.push_back(std::make_unique<heap_t>());
    return s;
}

API void heaps_delete(void *p) { delete (heaps *) p; }

API int64_t heap_push(void *p, int64_t h, int64_t v) {
    auto *s = (heaps *) p;
    int64_t id = s->handles.size();
    s->handles.push_back(s->h[h]->push(item{v, id}));
    return id;
}

API int64_t heap_top(void *p, int64_t h, int64_t *value) {
    auto *s = (heaps *) p;
    auto i = s->h[h]->top()->get_value();
    *value = i.value;
    return i.id;
}

API void heap_pop(void *p, int64_t h) { ((heaps *) p)->h[h]->pop(); }

API int64_t heap_size(void *p, int64_t h) { return ((heaps *) p)->h[h]->size(); }

API int64_t heap_empty(void *p, int64_t h) { return ((heaps *) p)->h[h]->empty(); }

API void heap_change(void *p, int64_t h, int64_t id, int64_t kind, int64_t v) {
    auto *s = (heaps *) p;
    auto &heap = *s->h[h];
    auto n = s->handles[id];
    if (kind == 0) heap.decrease(n, item{v, id});
    else if (kind == 1) heap.increase(n, item{v, id});
    else if (kind == 2) heap.update(n, item{v, id});
    else heap.erase(n);
}

API int64_t heap_value(void *p, int64_t id) { return ((heaps *) p)->handles[id]->get_value().value; }

API void heap_merge(void *p, int64_t a, int64_t b) { ((heaps *) p)->h[a]->merge(*((heaps *) p)->h[b]); }

API void heap_clear(void *p, int64_t h) { ((heaps *) p)->h[h]->clear(); }

API void heap_move_assign(void *p, int64_t a, int64_t b) { *((heaps *) p)->h[a] = std::move(*((heaps *) p)->h[b]); }

API void heap_move_construct(void *p, int64_t a, int64_t b) {
    auto *s = (heaps *) p;
    s->h[a] = std::make_unique<heap_t>(std::move(*s->h[b]));
}

API void heap_renew(void *p, int64_t h) { ((heaps *) p)->h[h] = std::make_unique<heap_t>(); }

/* ---------------------------------------------------------------- union find */

API void *uf_new(int64_t n) { return new hg::union_find(n); }

API void uf_delete(void *p) { delete (hg::union_find *) p; }

API int64_t uf_make_set(void *p) { return ((hg::union_find *) p)->make_set(); }

API int64_t uf_find(void *p, int64_t i) { return ((hg::union_find *) p)->find(i); }

API int64_t uf_link(void *p, int64_t i, int64_t j) { return ((hg::union_find *) p)->link(i, j); }

/* ---------------------------------------------------------------- range minimum queries */

template<typename Q>
static void all_ranges(const Q &q, int64_t n, int64_t *out) {
    int64_t k = 0;
    for (int64_t l = 0; l < n; ++l)
        for (int64_t r = l + 1; r <= n; ++r)
            out[k++] = q.query(l, r);
}

// block < 0: sparse table; restored: the queries are made on an object restored from its state
API int64_t rmq_all(int64_t n, const int64_t *values, int64_t block, int64_t restored, int64_t *out) {
    return guarded([&]() -> int64_t {
        hg::array_1d<index_t> a = hg::array_1d<index_t>::from_shape({(size_t) n});
        std::copy_n(values, n, a.begin());
        using namespace hg::range_minimum_query_internal;
        if (block < 0) {
            rmq_sparse_table<index_t> t(a);
            if (restored == 1) {
                auto st = t.get_state();
                auto t2 = rmq_sparse_table<index_t>::make_from_state(st, a);
                all_ranges(t2, n, out);
            } else if (restored == 2) {
                auto t2 = rmq_sparse_table<index_t>::make_from_state(t.get_state(), a);
                all_ranges(t2, n, out);
            } else all_ranges(t, n, out);
        } else {
            rmq_sparse_table_block<index_t> t(a, block);
            if (restored == 1) {
                auto st = t.get_state();
                auto t2 = rmq_sparse_table_block<index_t>::make_from_state(st, a);
                all_ranges(t2, n, out);
            } else if (restored == 2) {
                auto t2 = rmq_sparse_table_block<index_t>::make_from_state(t.get_state(), a);
                all_ranges(t2, n, out);
            } else all_ranges(t, n, out);
        }
        return 0;
    });
}

/* ---------------------------------------------------------------- sorting with comparators */

namespace {
    template<typename T>
    struct comparator {
        int64_t kind;
        int64_t m;

        T key(T a) const {
            switch (kind) {
                case 1:
                    return -a;
                case 2:
                    return a < 0 ? -a : a;
                case 3:
                    return (T) (((int64_t) a % m + m) % m);
                default:
                    return a;
            }
        }

        bool operator()(const T &a, const T &b) const { return key(a) < key(b); }
    };

    template<typename T>
    int64_t do_sort(int64_t n, int64_t d, T *data, int64_t fn, int64_t kind, int64_t m, int64_t *idx) {
        return guarded([&]() -> int64_t {
            comparator<T> c{kind, m};
            if (d < 0) {
                hg::array_1d<T> a = hg::array_1d<T>::from_shape({(size_t) n});
                std::copy_n(data, n, a.begin());
                switch (fn) {
                    case 0:
                        kind ? hg::sort(a, c) : hg::sort(a);
                        break;
                    case 1:
                        kind ? hg::stable_sort(a, c) : hg::stable_sort(a);
                        break;
                    case 2: {
                        hg::array_1d<index_t> r = kind ? hg::arg_sort(a, c) : hg::arg_sort(a);
                        if ((int64_t) r.size() != n) return -2;
                        std::copy(r.begin(), r.end(), idx);
                        break;
                    }
                    case 3: {
                        hg::array_1d<index_t> r = kind ? hg::stable_arg_sort(a, c) : hg::stable_arg_sort(a);
                        if ((int64_t) r.size() != n) return -2;
                        std::copy(r.begin(), r.end(), idx);
                        break;
                    }
                    case 4: {
                        std::vector<T> v(data, data + n);
                        kind ? hg::sort(v.begin(), v.end(), c) : hg::sort(v.begin(), v.end());
                        std::copy(v.begin(), v.end(), a.begin());
                        break;
                    }
                    default: {
                        std::vector<T> v(data, data + n);
                        kind ? hg::stable_sort(v.begin(), v.end(), c) : hg::stable_sort(v.begin(), v.end());
                        std::copy(v.begin(), v.end(), a.begin());
                    }
                }
                std::copy_n(a.begin(), n, data);
            } else {
                hg::array_2d<T> a = hg::array_2d<T>::from_shape({(size_t) n, (size_t) d});
                std::copy_n(data, n * d, a.begin());
                hg::array_1d<index_t> r = fn == 2 ? (kind ? hg::arg_sort(a, c) : hg::arg_sort(a)) :
                                          (kind ? hg::stable_arg_sort(a, c) : hg::stable_arg_sort(a));
                if ((int64_t) r.size() != n) return -2;
                std::copy(r.begin(), r.end(), idx);
            }
            return 0;
        });
    }
}

API int64_t sort_int(int64_t n, int64_t d, int64_t *data, int64_t fn, int64_t kind, int64_t m, int64_t *idx) {
    return do_sort<int64_t>(n, d, data, fn, kind, m, idx);
}

API int64_t sort_double(int64_t n, int64_t d, double *data, int64_t fn, int64_t kind, int64_t m, int64_t *idx) {
    return do_sort<double>(n, d, data, fn, kind, m, idx);
}

/* ---------------------------------------------------------------- pnm images */

// layout: 0 array, 1 column major array, 2 view with steps, 3 transposed expression
API int64_t pnm_save(const char *path, const uint8_t *data, int64_t h, int64_t w, int64_t c, int64_t layout) {
    return guarded([&]() -> int64_t {
        std::vector<size_t> shape{(size_t) h, (size_t) w};
        if (c > 0) shape.push_back(c);
        hg::array_nd<unsigned char> a = xt::zeros<unsigned char>(shape);
        std::copy_n(data, a.size(), a.begin());
        if (layout == 0) {
            hg::save_image_pnm(path, a);
        } else if (layout == 1) {
            xt::xarray<unsigned char, xt::layout_type::column_major> b(a);
            hg::save_image_pnm(path, b);
        } else if (layout == 2) {
            shape[1] = 2 * w;
            hg::array_nd<unsigned char> b = xt::ones<unsigned char>(shape);
            auto v = xt::view(b, xt::all(), xt::range(0, 2 * w, 2));
            v = a;
            hg::save_image_pnm(path, v);
        } else {
            hg::array_nd<unsigned char> t = xt::transpose(a);
            auto v = xt::transpose(t);
            hg::save_image_pnm(path, v);
        }
        return 0;
    });
}

API int64_t pnm_read(const char *path, uint8_t *out, int64_t capacity, int64_t *shape) {
    return guarded([&]() -> int64_t {
        hg::array_nd<unsigned char> a = hg::read_image_pnm(path);
        if ((int64_t) a.size() > capacity || a.dimension() > 3) return -2;
        std::copy(a.begin(), a.end(), out);
        for (size_t i = 0; i < a.dimension(); ++i) shape[i] = a.shape()[i];
        return a.dimension();
    });
}

/* ---------------------------------------------------------------- embeddings */

namespace {
    template<int dim>
    int64_t emb(const int64_t *shape, int64_t n, const int64_t *pts, int64_t *lin, int64_t *inside, int64_t *grid) {
        std::vector<index_t> s(shape, shape + dim);
        hg::embedding_grid<dim> e(s);
        for (int64_t i = 0; i < n; ++i) {
            std::vector<index_t> v(pts + i * dim, pts + (i + 1) * dim);
            hg::point<index_t, dim> p;
            for (int k = 0; k < dim; ++k) p[k] = v[k];
            inside[i] = e.contains(v);
            if (inside[i] != (int64_t) e.contains(p)) return -2;
            lin[i] = e.grid2lin(v);
            if (lin[i] != e.grid2lin(p)) return -3;
            if (inside[i]) {
                auto g = e.lin2grid(lin[i]);
                for (int k = 0; k < dim; ++k) grid[i * dim + k] = g[k];
            }
        }
        hg::array_2d<index_t> all = hg::array_2d<index_t>::from_shape({(size_t) n, (size_t) dim});
        std::copy_n(pts, n * dim, all.begin());
        hg::array_1d<index_t> l2 = e.grid2lin(all);
        for (int64_t i = 0; i < n; ++i)
            if (l2(i) != lin[i]) return -4;
        return e.size();
    }
}

API int64_t embedding(int64_t dim, const int64_t *shape, int64_t n, const int64_t *pts, int64_t *lin, int64_t *inside,
                      int64_t *grid) {
    return guarded([&]() -> int64_t {
        switch (dim) {
            case 1:
                return emb<1>(shape, n, pts, lin, inside, grid);
            case 2:
                return emb<2>(shape, n, pts, lin, inside, grid);
            case 3:
                return emb<3>(shape, n, pts, lin, inside, grid);
            default:
                return emb<4>(shape, n, pts, lin, inside, grid);
        }
    });
}

/* ---------------------------------------------------------------- tree iterators */

// writes, for the requested traversal, a sequence of nodes in out (length returned)
API int64_t tree_walk(int64_t n, const int64_t *parents, int64_t what, int64_t leaves, int64_t root, int64_t node,
                      int64_t *out, int64_t capacity) {
    return guarded([&]() -> int64_t {
        hg::array_1d<index_t> p = hg::array_1d<index_t>::from_shape({(size_t) n});
        std::copy_n(parents, n, p.begin());
        hg::tree t(p);
        t.compute_children();
        auto lo = leaves ? hg::leaves_it::include : hg::leaves_it::exclude;
        auto ro = root ? hg::root_it::include : hg::root_it::exclude;
        int64_t k = 0;
        auto put = [&](int64_t v) {
            if (k >= capacity) throw std::runtime_error("walk too long");
            out[k++] = v;
        };
        switch (what) {
            case 0:
                for (auto v: hg::leaves_to_root_iterator(t, lo, ro)) put(v);
                break;
            case 1:
                for (auto v: hg::root_to_leaves_iterator(t, lo, ro)) put(v);
                break;
            case 2:
                for (auto v: hg::leaves_iterator(t)) put(v);
                break;
            case 3:
                {
                auto r = hg::ancestors((index_t) node, t);
                for (auto it = r.first; it != r.second; ++it) put(*it);
                break;
            }
            case 9:
                for (auto v: hg::ancestors_iterator((index_t) node, t)) put(v);
                break;
            case 4:
                for (auto v: hg::children_iterator((index_t) node, t)) put(v);
                break;
            case 5:
                for (auto v: hg::vertex_iterator(t)) put(v);
                break;
            case 6:
                for (auto e: hg::edge_iterator(t)) {
                    put(hg::source(e, t));
                    put(hg::target(e, t));
                }
                break;
            case 7:
                for (auto v: hg::adjacent_vertex_iterator((index_t) node, t)) put(v);
                break;
            default:
                for (auto e: hg::out_edge_iterator((index_t) node, t)) {
                    put(hg::source(e, t));
                    put(hg::target(e, t));
                }
        }
        return k;
    });
}

/* ---------------------------------------------------------------- integer ranges */

API int64_t irange(int64_t start, int64_t stop, int64_t step, int64_t *out, int64_t capacity) {
    return guarded([&]() -> int64_t {
        int64_t k = 0;
        for (auto v: hg::irange<index_t>(start, stop, step)) {
            if (k >= capacity) throw std::runtime_error("range too long");
            out[k++] = v;
        }
        return k;
    });
}

/* ---------------------------------------------------------------- supervertices */

// returns the number of nodes of the tree of supervertices
API int64_t supervertices(int64_t n, const int64_t *parents, const double *altitudes, int64_t partition, int64_t *labels,
                          int64_t *new_parents, int64_t *node_map, int64_t *category) {
    return guarded([&]() -> int64_t {
        hg::array_1d<index_t> p = hg::array_1d<index_t>::from_shape({(size_t) n});
        std::copy_n(parents, n, p.begin());
        hg::tree t(p, partition ? hg::tree_category::partition_tree : hg::tree_category::component_tree);
        hg::array_1d<double> a = hg::array_1d<double>::from_shape({(size_t) n});
        std::copy_n(altitudes, n, a.begin());
        auto r = hg::supervertices_hierarchy(t, a);
        if (r.supervertex_labelisation.size() != hg::num_leaves(t)) return -2;
        std::copy(r.supervertex_labelisation.begin(), r.supervertex_labelisation.end(), labels);
        int64_t k = hg::num_vertices(r.tree);
        if ((int64_t) r.node_map.size() != k || k > n) return -3;
        for (int64_t i = 0; i < k; ++i) new_parents[i] = hg::parent((index_t) i, r.tree);
        std::copy(r.node_map.begin(), r.node_map.end(), node_map);
        *category = r.tree.category() == hg::tree_category::partition_tree;
        return k;
    });
}
