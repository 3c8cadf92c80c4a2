// C16: boxes, balls and segments: tightness, membership, distances and extents against their definition.
#include "gen.hpp"
#include "mc.hpp"

#include "ffcl/datastruct/Interval.hpp"
#include "ffcl/datastruct/bounds/AABB.hpp"
#include "ffcl/datastruct/bounds/AABBWithCentroid.hpp"
#include "ffcl/datastruct/bounds/Ball.hpp"
#include "ffcl/datastruct/bounds/UnboundedBall.hpp"
#include "ffcl/datastruct/bounds/distances/MinDistance.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp"
#include "ffcl/datastruct/bounds/segment/LowerBoundAndUpperBound.hpp"

#include <array>
#include <cmath>

namespace B = ffcl::datastruct::bounds;
namespace D = ffcl::datastruct;

template <typename T>
using Seg = B::segment::LowerBoundAndUpperBound<T>;
template <typename T>
using Len = B::segment::LowerBoundAndLength<T>;

// results are compared up to the rounding of a short computation with coordinates of the space at hand
static double tolerance = 0;
template <typename T>
void set_tolerance(double largest) { tolerance = (std::is_same_v<T, float> ? 1e-6 : 1e-14) * largest; }
static bool same(double a, double b) { return a == b || std::fabs(a - b) <= tolerance; }

// distance used by the library for the type: straight-line for reals, per-axis sum for integers
template <typename T>
double metric(const std::vector<T>& a, const std::vector<T>& b) {
    double s = 0;
    for (std::size_t f = 0; f < a.size(); ++f) {
        const double v = double(a[f]) - double(b[f]);
        s += std::is_integral_v<T> ? std::fabs(v) : v * v;
    }
    return std::is_integral_v<T> ? s : std::sqrt(s);
}
template <typename T>
double straight(const std::vector<T>& a, const std::vector<T>& b) {
    double s = 0;
    for (std::size_t f = 0; f < a.size(); ++f) s += (double(a[f]) - double(b[f])) * (double(a[f]) - double(b[f]));
    return std::sqrt(s);
}

template <typename T>
struct Box {
    std::vector<T> lo, hi;
    std::string    text() const { return "[" + mc::show(lo) + ".." + mc::show(hi) + "]"; }
};

// ---- segments -------------------------------------------------------------------------------------------------------
template <typename S, typename T>
void check_segment(const S& s, T lo, T hi, const std::vector<T>& probes, const std::string& kind) {
    auto what = [&] { return kind + " segment [" + std::to_string(lo) + "," + std::to_string(hi) + "]"; };
    if (!(s.lower_bound() == lo) || !(s.upper_bound() == hi))
        return mc::fail("segment", what() + " reports [" + std::to_string(s.lower_bound()) + "," + std::to_string(s.upper_bound()) + "]");
    const double c = s.centroid(), r = s.centroid_to_bound_distance();
    const double mid = std::is_integral_v<T> ? std::floor((double(lo) + double(hi)) / 2) : (double(lo) + double(hi)) / 2;
    if (!same(c, mid)) mc::fail("segment", what() + " has centre " + std::to_string(c));
    if (std::is_integral_v<T> ? !(r >= std::max(c - lo, hi - c)) : !same(r, (double(hi) - double(lo)) / 2))
        mc::fail("segment", what() + " reports distance " + std::to_string(r) + " from its centre to its border");
    for (T p : probes) {
        mc::step();
        if (s.contains_value(p) != (lo <= p && p <= hi)) mc::fail("segment", what() + (s.contains_value(p) ? " contains " : " does not contain ") + std::to_string(p));
    }
}

template <typename T>
void segments(const std::string& name, double scale, int range) {
    if (!mc::begin_space(name)) return;
    set_tolerance<T>(scale * (range + 1));
    std::vector<T> probes;
    for (int v = -range - 1; v <= range + 1; ++v) probes.push_back(static_cast<T>(scale * v));
    auto at = [&](int v) { return static_cast<T>(scale * v); };
    for (int a = -range; a <= range; ++a)
        for (int b = a; b <= range; ++b) {
            if (!mc::take()) continue;
            mc::guard("segment", [&] {
                mc::exec();
                check_segment(Seg<T>(at(a), at(b)), at(a), at(b), probes, "bounds");
                if constexpr (!std::is_integral_v<T>) check_segment(Len<T>(at(a), at(b) - at(a)), at(a), at(b), probes, "length");
                // every update of one end keeps the other
                for (int c = -range; c <= range; ++c) {
                    mc::step(2);
                    auto lower = [&](auto s, const char* kind) {
                        s.update_lower_bound(at(c));
                        check_segment(s, at(c), at(b), probes, std::string(kind) + " with updated lower end");
                    };
                    auto upper = [&](auto s, const char* kind) {
                        s.update_upper_bound(at(c));
                        check_segment(s, at(a), at(c), probes, std::string(kind) + " with updated upper end");
                    };
                    if (c <= b) {
                        lower(Seg<T>(std::make_pair(at(a), at(b))), "bounds");
                        if constexpr (!std::is_integral_v<T>) lower(Len<T>(std::make_pair(at(a), at(b) - at(a))), "length");
                    }
                    if (c >= a) {
                        upper(Seg<T>(at(a), at(b)), "bounds");
                        if constexpr (!std::is_integral_v<T>) upper(Len<T>(at(a), at(b) - at(a)), "length");
                    }
                }
                // distance to every other segment
                for (int c = -range; c <= range; ++c)
                    for (int d = c; d <= range; ++d) {
                        const double want = b < c ? scale * (c - b) : d < a ? scale * (a - d) : 0;
                        const Seg<T> s(at(a), at(b)), t(at(c), at(d));
                        mc::step(2);
                        if (!same(B::min_distance(s, t), want) || !same(B::min_distance(t, s), want))
                            mc::fail("segment distance", "segments [" + std::to_string(a) + "," + std::to_string(b) + "] and [" + std::to_string(c) + "," + std::to_string(d) + "] times " + std::to_string(scale) + " are reported " + std::to_string(double(B::min_distance(s, t))) + " apart");
                        if constexpr (!std::is_integral_v<T>) {
                            const Len<T> l(at(a), at(b) - at(a));
                            if (!same(B::min_distance(l, t), want)) mc::fail("segment distance", "wrong distance of segments with different representations");
                        }
                        mc::outcome(mc::mix(std::uint64_t(want * 64), a == b) + (c == d));
                    }
            }, [&] { return "segment " + std::to_string(a) + ".." + std::to_string(b); });
        }
}

// ---- tight boxes ----------------------------------------------------------------------------------------------------
template <typename T, typename Bound>
void check_tight(const Bound& b, const std::vector<T>& lo, const std::vector<T>& hi, const std::string& what) {
    mc::step();
    if (b.n_features() != lo.size()) return mc::fail("tight", "the box has " + std::to_string(b.n_features()) + " features: " + what);
    for (std::size_t f = 0; f < lo.size(); ++f)
        if (!(b.segment_at(f).lower_bound() == lo[f]) || !(b.segment_at(f).upper_bound() == hi[f]))
            return mc::fail("tight", "feature " + std::to_string(f) + " spans [" + std::to_string(b.segment_at(f).lower_bound()) + "," + std::to_string(b.segment_at(f).upper_bound()) + "] instead of [" + std::to_string(lo[f]) + "," + std::to_string(hi[f]) + "]: " + what);
}

template <typename T>
void tight(const std::string& name, std::size_t dim, std::size_t side, std::size_t n_max, double scale, double shift, bool extremes = false) {
    if (!mc::begin_space(name)) return;
    for (std::size_t n = 1; n <= n_max; ++n)
        gen::datasets(n, dim, side, [&](const std::vector<int>& x) {
            if (!mc::take()) return;
            std::vector<T> data;
            for (int v : x) {
                if (extremes)
                    data.push_back(v == 0 ? std::numeric_limits<T>::lowest() : v == int(side) - 1 ? std::numeric_limits<T>::max() : static_cast<T>(v - 1));
                else
                    data.push_back(static_cast<T>(scale * (v - shift)));
            }
            mc::guard("tight", [&] {
                auto what = [&](unsigned mask) { return "samples " + mc::show(data) + " of " + std::to_string(dim) + " features, selection " + std::to_string(mask); };
                for (unsigned mask = 1; mask < (1u << n); ++mask) {
                    std::vector<std::size_t> ids;
                    for (std::size_t i = n; i-- > 0;)
                        if (mask >> i & 1) ids.push_back(i);
                    std::vector<T> lo(dim, std::numeric_limits<T>::max()), hi(dim, std::numeric_limits<T>::lowest());
                    for (auto i : ids)
                        for (std::size_t f = 0; f < dim; ++f) lo[f] = std::min(lo[f], data[i * dim + f]), hi[f] = std::max(hi[f], data[i * dim + f]);
                    using It = typename std::vector<T>::iterator;
                    using Id = std::vector<std::size_t>::iterator;
                    mc::exec();
                    for (int rep = 0; rep < 2; ++rep) {
                        if (mask + 1 != (1u << n) && rep) break;
                        auto all = [&](auto bound, bool box_only) {
                            check_tight(bound, lo, hi, what(mask));
                            if (box_only) return;
                        };
                        if (rep == 0) {
                            all(D::make_tight_bound(ids.begin(), ids.end(), data.begin(), data.end(), dim), false);
                            all(D::make_tight_bound<Id, It, B::AABB<Seg<T>>>(ids.begin(), ids.end(), data.begin(), data.end(), dim), true);
                            if constexpr (!std::is_integral_v<T>)
                                if (!extremes) all(D::make_tight_bound<Id, It, B::AABBWithCentroid<Len<T>>>(ids.begin(), ids.end(), data.begin(), data.end(), dim), false);
                        } else {
                            all(D::make_tight_bound(data.begin(), data.end(), dim), false);
                            all(D::make_tight_bound<It, B::AABB<Seg<T>>>(data.begin(), data.end(), dim), true);
                            if constexpr (!std::is_integral_v<T>)
                                if (!extremes) all(D::make_tight_bound<It, B::AABBWithCentroid<Len<T>>>(data.begin(), data.end(), dim), false);
                        }
                    }
                    for (std::size_t f = 0; f < dim; ++f) {
                        const auto s = D::make_tight_segment(ids.begin(), ids.end(), data.begin(), data.end(), dim, f);
                        mc::step();
                        if (!(s.lower_bound() == lo[f]) || !(s.upper_bound() == hi[f])) mc::fail("tight", "the tight segment of feature " + std::to_string(f) + " is wrong: " + what(mask));
                        if (mask + 1 == (1u << n)) {
                            const auto t = D::make_tight_segment(data.begin(), data.end(), dim, f);
                            if (!(t.lower_bound() == lo[f]) || !(t.upper_bound() == hi[f])) mc::fail("tight", "the tight segment of feature " + std::to_string(f) + " of all samples is wrong: " + what(mask));
                        }
                    }
                }
                mc::outcome(mc::mix(x.front(), x.back()) + n);
            }, [&] { return "tight box of " + mc::show(data); });
        });
}

// ---- boxes ----------------------------------------------------------------------------------------------------------
template <typename T>
struct Grid {
    double                      scale;
    int                         range;
    std::size_t                 dim;
    std::vector<std::vector<T>> points;
    std::vector<Box<T>>         boxes;

    Grid(double s, int r, std::size_t d) : scale(s), range(r), dim(d) {
        gen::tuples(dim, 2 * r + 3, [&](const std::vector<int>& t) {
            std::vector<T> p;
            for (int v : t) p.push_back(static_cast<T>(scale * (v - r - 1)));
            points.push_back(p);
        });
        gen::tuples(2 * dim, 2 * r + 1, [&](const std::vector<int>& t) {
            Box<T> b;
            for (std::size_t f = 0; f < dim; ++f) {
                if (t[2 * f] > t[2 * f + 1]) return;
                b.lo.push_back(static_cast<T>(scale * (t[2 * f] - r)));
                b.hi.push_back(static_cast<T>(scale * (t[2 * f + 1] - r)));
            }
            boxes.push_back(b);
        });
    }
    // boxes and points with many features: patterns, each changed along each single feature
    Grid(double s, std::size_t d) : scale(s), range(9), dim(d) {
        for (int m : {1, 2, 5}) {
            Box<T> b;
            for (std::size_t f = 0; f < dim; ++f) {
                const int at = static_cast<int>((f * f + 3 * f) % m) - 2, len = static_cast<int>((5 * f + 1) % (m + 1));
                b.lo.push_back(static_cast<T>(scale * at)), b.hi.push_back(static_cast<T>(scale * (at + len)));
            }
            points.push_back(b.lo), points.push_back(b.hi);
            for (std::size_t f = 0; f < dim; ++f) {
                auto p = f % 2 ? b.lo : b.hi;
                p[f]   = static_cast<T>(f % 2 ? b.lo[f] - scale : b.hi[f] + scale);
                points.push_back(p);
                auto far  = b;
                far.lo[f] = static_cast<T>(far.hi[f] + scale * (1 + f % 4)), far.hi[f] = static_cast<T>(far.lo[f] + scale * 2);
                boxes.push_back(far);
            }
            boxes.push_back(b);
        }
    }
    bool inside(const Box<T>& b, const std::vector<T>& p) const {
        for (std::size_t f = 0; f < dim; ++f)
            if (p[f] < b.lo[f] || b.hi[f] < p[f]) return false;
        return true;
    }
};

template <typename T, typename S>
std::vector<S> make_segments(const Box<T>& b) {
    std::vector<S> v;
    for (std::size_t f = 0; f < b.lo.size(); ++f) {
        if constexpr (std::is_same_v<S, Len<T>>)
            v.emplace_back(b.lo[f], b.hi[f] - b.lo[f]);
        else
            v.emplace_back(b.lo[f], b.hi[f]);
    }
    return v;
}

template <typename T, typename Bound>
void check_box(const Grid<T>& g, const Box<T>& box, const Bound& b, const char* kind) {
    auto what = [&] { return std::string(kind) + " " + box.text(); };
    mc::exec();
    if (b.n_features() != g.dim) mc::fail("box", what() + " has the wrong number of features");
    double diameter = straight(box.lo, box.hi);
    if (!same(b.diameter(), diameter)) mc::fail("box", what() + " has diameter " + std::to_string(b.diameter()) + " instead of " + std::to_string(diameter));
    for (auto& p : g.points) {
        mc::step();
        const bool in = g.inside(box, p);
        if (b.is_in_bounds(p.begin(), p.end()) != in) mc::fail("membership", what() + (in ? " does not contain " : " contains ") + mc::show(p));
    }
}

template <typename T, typename Bound>
void check_centre(const Grid<T>& g, const Box<T>& box, const Bound& b, const char* kind, const std::vector<T>& centre) {
    auto what = [&] { return std::string(kind) + " " + box.text(); };
    std::vector<T> c(b.centroid_begin(), b.centroid_end());
    const auto     copy = b.centroid();
    if (c != centre || !std::equal(copy.begin(), copy.end(), c.begin())) return mc::fail("centre", what() + " has centre " + mc::show(c) + " instead of " + mc::show(centre));
    double widest = 0;
    for (std::size_t f = 0; f < g.dim; ++f) {
        const double r = b.centroid_to_bound_distance(f), half = std::max(double(centre[f]) - double(box.lo[f]), double(box.hi[f]) - double(centre[f]));
        if (!(b.centroid_at(f) == centre[f])) mc::fail("centre", what() + " has a wrong centre coordinate");
        if (std::is_integral_v<T> ? !(r >= half) : !same(r, half)) mc::fail("extent", what() + " reports " + std::to_string(r) + " from centre to border along feature " + std::to_string(f));
        widest = std::max(widest, r);
    }
    if (!same(b.centroid_to_furthest_bound_distance(), widest))
        mc::fail("extent", what() + " reports its furthest border " + std::to_string(double(b.centroid_to_furthest_bound_distance())) + " from the centre instead of " + std::to_string(widest));
    for (auto& p : g.points) {
        mc::step(2);
        const double d = metric<T>(p, centre);
        if (!same(b.distance_to_centroid(p.begin(), p.end()), d)) mc::fail("centre", what() + ": wrong distance of " + mc::show(p) + " to the centre");
        const auto o = b.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
        if (o.has_value() != g.inside(box, p) || (o && !same(*o, d))) mc::fail("membership", what() + ": wrong filtered distance of " + mc::show(p));
    }
}

template <typename T>
std::vector<T> centre_of(const Box<T>& b) {
    std::vector<T> c;
    for (std::size_t f = 0; f < b.lo.size(); ++f) {
        const double m = (double(b.lo[f]) + double(b.hi[f])) / 2;
        c.push_back(static_cast<T>(std::is_integral_v<T> ? std::floor(m) : m));
    }
    return c;
}

template <typename T, std::size_t N>
void every_box(const Grid<T>& g) {
    set_tolerance<T>(g.scale * (g.range + 1) * g.dim);
    for (auto& box : g.boxes) {
        if (!mc::take()) continue;
        mc::guard("box", [&] {
            const auto centre = centre_of(box);
            auto segs = make_segments<T, Seg<T>>(box);
            check_box(g, box, B::AABB<Seg<T>>(segs), "box");
            B::AABBWithCentroid<Seg<T>> b(segs);
            check_box(g, box, b, "box with centre");
            check_centre(g, box, b, "box with centre", centre);
            B::AABBWithCentroid<Seg<T>> given(D::FeaturesVector<T, 0>(box.lo), D::FeaturesVector<Seg<T>, 0>(segs));
            check_box(g, box, given, "box with given centre");
            if (!std::equal(box.lo.begin(), box.lo.end(), given.centroid_begin())) mc::fail("centre", "a given centre is replaced");
            if constexpr (!std::is_integral_v<T>) {
                B::AABBWithCentroid<Len<T>> l(make_segments<T, Len<T>>(box));
                check_box(g, box, l, "box with centre over lengths");
                check_centre(g, box, l, "box with centre over lengths", centre);
            }
            if constexpr (N == 2) {
                std::array<Seg<T>, 2> fixed{segs[0], segs[1]};
                check_box(g, box, B::AABB<Seg<T>, 2>(D::FeaturesVector<Seg<T>, 2>(fixed)), "fixed size box");
                B::AABBWithCentroid<Seg<T>, 2> f{D::FeaturesVector<Seg<T>, 2>(fixed)};
                check_box(g, box, f, "fixed size box with centre");
                check_centre(g, box, f, "fixed size box with centre", centre);
            }
            // distances to all other boxes
            for (auto& other : g.boxes) {
                double want = 0;
                for (std::size_t f = 0; f < g.dim; ++f) {
                    const double gap = std::max({0.0, double(other.lo[f]) - double(box.hi[f]), double(box.lo[f]) - double(other.hi[f])});
                    want += gap * gap;
                }
                want = std::sqrt(want);
                auto o = make_segments<T, Seg<T>>(other);
                mc::step(4);
                const B::AABBWithCentroid<Seg<T>> c(o);
                const B::AABB<Seg<T>>             p(segs), q(o);
                auto say = [&](double v) { mc::fail("box distance", box.text() + " and " + other.text() + " are reported " + std::to_string(v) + " apart instead of " + std::to_string(want)); };
                if (!same(B::min_distance(b, c), want)) say(B::min_distance(b, c));
                if (!same(B::min_distance(c, b), want)) say(B::min_distance(c, b));
                if (!same(B::min_distance(p, q), want)) say(B::min_distance(p, q));
                if (!same(B::min_distance(q, p), want)) say(B::min_distance(q, p));
                mc::outcome(std::uint64_t(want * 4096));
            }
        }, [&] { return "box " + box.text(); });
    }
}

template <typename T, std::size_t N>
void boxes(const std::string& name, double scale, int range) {
    if (mc::begin_space(name)) every_box<T, N>(Grid<T>(scale, range, N));
}

// ---- balls ----------------------------------------------------------------------------------------------------------
template <typename T>
void every_ball(const Grid<T>& g, int r_max) {
    const double      scale = g.scale;
    const int         range = g.range;
    const std::size_t N     = g.dim;
    set_tolerance<T>(scale * (range + 1) * N);
    std::vector<T> radii;
    for (int r = 0; r <= r_max; ++r) radii.push_back(static_cast<T>(scale * r));
    for (auto& c : g.points)
        for (T r : radii) {
            if (!mc::take()) continue;
            auto text = [](const std::vector<T>& x, T rad) { return "ball " + mc::show(x) + " radius " + std::to_string(rad); };
            mc::guard("ball", [&] {
                auto cc = c;
                const B::Ball<T>                                  ball(D::FeaturesVector<T, 0>(c), r);
                const B::BallView<typename std::vector<T>::iterator> view(cc.begin(), cc.end(), r);
                const B::UnboundedBall<T>                         open{D::FeaturesVector<T, 0>(c)};
                const B::UnboundedBallView<typename std::vector<T>::iterator> open_view(cc.begin(), cc.end());
                mc::exec(4);
                auto bounded = [&](const auto& b, const char* kind) {
                    auto what = [&] { return std::string(kind) + " " + text(c, r); };
                    if (!same(b.diameter(), 2.0 * r) || !same(b.centroid_to_furthest_bound_distance(), r)) mc::fail("extent", what() + " reports a wrong extent");
                    for (std::size_t f = 0; f < N; ++f)
                        if (!same(b.centroid_to_bound_distance(f), r)) mc::fail("extent", what() + " reports a wrong extent along a feature");
                };
                auto any = [&](const auto& b, const char* kind, bool limited) {
                    auto what = [&] { return std::string(kind) + " " + text(c, r); };
                    if (b.n_features() != N || !std::equal(c.begin(), c.end(), b.centroid_begin(), b.centroid_end())) mc::fail("centre", what() + " has a wrong centre");
                    const auto copy = b.centroid();
                    if (!std::equal(c.begin(), c.end(), copy.begin())) mc::fail("centre", what() + " has a wrong centre");
                    for (auto& p : g.points) {
                        const double d  = metric(p, c);
                        const bool   in = !limited || static_cast<T>(d) < r;
                        mc::step(3);
                        if (b.is_in_bounds(p.begin(), p.end()) != in) mc::fail("membership", what() + (in ? " does not contain " : " contains ") + mc::show(p));
                        if (!same(b.distance_to_centroid(p.begin(), p.end()), d)) mc::fail("centre", what() + ": wrong distance to " + mc::show(p));
                        const auto o = b.compute_distance_to_centroid_if_within_bounds(p.begin(), p.end());
                        if (o.has_value() != in || (o && !same(*o, d))) mc::fail("membership", what() + ": wrong filtered distance of " + mc::show(p));
                        if (!limited && !(b.centroid_to_furthest_bound_distance() >= d && b.centroid_to_bound_distance(0) >= d)) mc::fail("extent", what() + " reports an extent smaller than the distance to " + mc::show(p));
                    }
                };
                bounded(ball, "owning");
                bounded(view, "viewing");
                any(ball, "owning", true);
                any(view, "viewing", true);
                any(open, "unbounded owning", false);
                any(open_view, "unbounded viewing", false);
                if (!(open.diameter() >= 4 * scale * range * N)) mc::fail("extent", "an unbounded ball reports a diameter smaller than distances inside it");
                for (auto& oc : g.points)
                    for (T orad : radii) {
                        const double want = std::max(0.0, metric(c, oc) - r - orad);
                        auto         occ  = oc;
                        const B::Ball<T>                                     o(D::FeaturesVector<T, 0>(oc), orad);
                        const B::BallView<typename std::vector<T>::iterator> ov(occ.begin(), occ.end(), orad);
                        mc::step(3);
                        if (!same(B::min_distance(ball, o), want) || !same(B::min_distance(view, ov), want) || !same(B::min_distance(o, ball), want))
                            mc::fail("ball distance", text(c, r) + " and " + text(oc, orad) + " are reported " + std::to_string(double(B::min_distance(ball, o))) + " apart instead of " + std::to_string(want));
                        mc::outcome(std::uint64_t(want * 4096));
                    }
                if (B::min_distance(open, open) != 0 || B::min_distance(open_view, open_view) != 0) mc::fail("ball distance", "unbounded balls are reported apart");
            }, [&] { return text(c, r); });
        }
}

template <typename T, std::size_t N>
void balls(const std::string& name, double scale, int range) {
    if (mc::begin_space(name)) every_ball<T>(Grid<T>(scale, range, N), 2 * range);
}
template <typename T>
void high(const std::string& name, std::size_t dim_max, double scale) {
    if (!mc::begin_space(name)) return;
    for (auto dim : gen::every(1, dim_max, 129)) {
        const Grid<T> g(scale, dim);
        every_box<T, 0>(g);
        if (dim <= 9 || dim % 8 < 2) every_ball<T>(g, 3);
    }
    for (std::size_t dim : {1, 4, 9, 17})
        for (auto n : gen::every(1, 70, dim == 1 ? gen::kHuge : 2049))
            gen::lattice(n, dim, {3}, {5}, {1}, {5, 41}, [&](const std::vector<int>& x) {
                if (!mc::take()) return;
                std::vector<T> data, lo(dim, std::numeric_limits<T>::max()), hi(dim, std::numeric_limits<T>::lowest()), plo = lo, phi = hi;
                for (int v : x) data.push_back(static_cast<T>(scale * (v - 20)));
                std::vector<std::size_t> all(n), part;
                std::iota(all.rbegin(), all.rend(), 0);
                for (std::size_t i = 0; i < n; ++i) {
                    const bool in = i % 3 == n % 3 || i == n / 2;
                    if (in) part.push_back(i);
                    for (std::size_t f = 0; f < dim; ++f) {
                        const T v = data[i * dim + f];
                        lo[f] = std::min(lo[f], v), hi[f] = std::max(hi[f], v);
                        if (in) plo[f] = std::min(plo[f], v), phi[f] = std::max(phi[f], v);
                    }
                }
                auto what = [&] { return "samples " + mc::show(data) + " of " + std::to_string(dim) + " features"; };
                mc::guard("tight", [&] {
                    mc::exec();
                    check_tight(D::make_tight_bound(data.begin(), data.end(), dim), lo, hi, what());
                    check_tight(D::make_tight_bound(all.begin(), all.end(), data.begin(), data.end(), dim), lo, hi, what());
                    check_tight(D::make_tight_bound(part.begin(), part.end(), data.begin(), data.end(), dim), plo, phi, what() + " selection " + mc::show(part));
                    for (std::size_t f = 0; f < dim; ++f) {
                        const auto s = D::make_tight_segment(part.begin(), part.end(), data.begin(), data.end(), dim, f);
                        const auto t = D::make_tight_segment(data.begin(), data.end(), dim, f);
                        mc::step(2);
                        if (s.lower_bound() != plo[f] || s.upper_bound() != phi[f] || t.lower_bound() != lo[f] || t.upper_bound() != hi[f]) mc::fail("tight", "the tight segment of feature " + std::to_string(f) + " is wrong: " + what());
                    }
                }, what);
            });
}

int mc::explore() {
    const bool T = mc::thorough(), S = mc::san();
    if (!S) high<float>("many-features", T ? 70 : 40, 0.5);
    if (!S) high<double>("many-features-double", T ? 70 : 40, 1);
    if (!S) high<int>("many-features-int", T ? 70 : 40, 3);
    segments<float>("segments", 0.5, S ? 2 : 5);
    segments<int>("segments-int", 1, S ? 2 : 5);
    if (!S) segments<double>("segments-double", 0.375, 5);
    tight<float>("tight-1d", 1, 5, S ? 2 : 4, 0.75, 2);
    tight<float>("tight-2d", 2, 4, S ? 2 : 3, 0.75, 2);
    tight<int>("tight-int", 2, 4, S ? 2 : 3, 3, 2);
    if (!S) tight<double>("tight-3d", 3, 3, T ? 4 : 3, -0.5, 1);
    if (!S) tight<int>("tight-negative", 1, 6, 4, 2, 7);
    if (!S) tight<float>("tight-positive", 1, 6, 4, 2, -7);
    tight<int>("tight-extreme-int", 1, 4, S ? 2 : 4, 0, 0, true);
    tight<float>("tight-extreme", 1, 4, S ? 2 : 4, 0, 0, true);
    boxes<float, 1>("boxes-1d", 0.5, S ? 2 : 6);
    boxes<int, 1>("boxes-1d-int", 1, S ? 2 : 6);
    boxes<float, 2>("boxes-2d", 0.5, S ? 1 : T ? 5 : 4);
    boxes<int, 2>("boxes-2d-int", 1, S ? 1 : T ? 5 : 4);
    if (!S) boxes<int, 2>("boxes-2d-wide-int", 100003, 2);
    if (!S) boxes<double, 2>("boxes-2d-tiny", 1.0 / (1 << 30), 2);
    if (!S) balls<double, 2>("balls-2d-tiny", 1.0 / (1 << 30), 2);
    if (!S) balls<int, 2>("balls-2d-wide-int", 100003, 2);
    if (!S) segments<double>("segments-tiny", 1.0 / (1ull << 40), 4);
    if (!S) segments<int>("segments-wide-int", 300000001, 3);
    if (!S) segments<long>("segments-wide-long", 400000001, 3);
    if (!S) boxes<double, 3>("boxes-3d", 0.75, 1);
    balls<float, 1>("balls-1d", 0.5, S ? 2 : 5);
    balls<int, 1>("balls-1d-int", 1, S ? 2 : 5);
    if (!S) balls<float, 2>("balls-2d", 0.5, T ? 5 : 4);
    if (!S) balls<int, 2>("balls-2d-int", 1, T ? 5 : 4);
    if (!S) balls<double, 2>("balls-2d-double", 0.25, 2);
    return 0;
}
MC_MAIN
