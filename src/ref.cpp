#include "pre.h"

#include "ref.h"

namespace ref {

const Stream& port(const Ports& p, const std::string& k) {
  static const Stream empty;
  auto it = p.find(k);
  return it == p.end() ? empty : it->second;
}

const Msg* at_or_before(const Stream& s, int64_t t) {
  const Msg* r = nullptr;
  for (auto& m : s)
    if (m.t <= t) r = &m;
  return r;
}

const Msg* exactly(const Stream& s, int64_t t) {
  for (auto& m : s)
    if (m.t == t) return &m;
  return nullptr;
}

std::vector<std::pair<int64_t, std::vector<double>>> tuples(const std::vector<const Stream*>& ss) {
  std::vector<std::pair<int64_t, std::vector<double>>> r;
  for (auto& m : *ss[0]) {
    std::vector<double> v{m.v};
    bool all = true;
    for (size_t i = 1; i < ss.size() && all; i++) {
      auto* x = exactly(*ss[i], m.t);
      if (x)
        v.push_back(x->v);
      else
        all = false;
    }
    if (all) r.push_back({m.t, v});
  }
  return r;
}

double hermite_mix(double y0, double y1, double m0, double m1, double u) {
  return y0 * (1 + 2 * u) * (1 - u) * (1 - u) + m0 * u * (1 - u) * (1 - u) + y1 * u * u * (3 - 2 * u) +
         m1 * u * u * (u - 1);
}

double function_value(const Params& p, double x) {
  auto pts = p.points;
  for (size_t i = 0; i < pts.size(); i++)
    for (size_t j = i + 1; j < pts.size(); j++)
      if (pts[j].first < pts[i].first) std::swap(pts[i], pts[j]);
  size_t n = pts.size();
  // segment [k, k+1] that contains x; the first or the last one outside of the range
  size_t k = 0;
  for (size_t i = 0; i + 1 < n; i++)
    if (pts[i].first <= x) k = i;
  double x0 = pts[k].first, y0 = pts[k].second, x1 = pts[k + 1].first, y1 = pts[k + 1].second;
  double u = (x - x0) / (x1 - x0);
  if (!p.hermite) return y0 + (y1 - y0) * u;
  auto slope = [&](size_t i) {
    size_t a = i == 0 ? 0 : i - 1, b = i + 1 == n ? i : i + 1;
    return (pts[b].second - pts[a].second) / (pts[b].first - pts[a].first);
  };
  return hermite_mix(y0, y1, slope(k) * (x1 - x0), slope(k + 1) * (x1 - x0), u);
}

Ports eval(const std::string& type, const Params& p, const Ports& ins) {
  Ports o;
  const Stream& x = port(ins, "i1");
  auto each = [&](auto f) {
    Stream r;
    for (auto& m : x) r.push_back({m.t, f(m.v)});
    o["o1"] = r;
  };
  auto keep = [&](auto f) {
    Stream r;
    for (auto& m : x)
      if (f(m.v)) r.push_back(m);
    o["o1"] = r;
  };
  auto window = [&](size_t n, auto f) {  // f(index of the newest message)
    Stream r;
    for (size_t i = 0; i < x.size(); i++)
      if (i + 1 >= n) r.push_back({x[i].t, f(i)});
    o["o1"] = r;
  };
  auto binary = [&](auto f) {
    Stream r;
    for (auto& [t, v] : tuples({&port(ins, "i1"), &port(ins, "i2")})) {
      std::optional<double> y = f(v[0], v[1]);
      if (y) r.push_back({t, *y});
    }
    o["o1"] = r;
  };
  using O = std::optional<double>;

  if (type == "Input") {
    for (int i = 1; i <= p.n; i++) {
      Stream r;
      for (auto& m : port(ins, in(i)))
        if (r.empty() || m.t > r.back().t) r.push_back(m);
      o[out(i)] = r;
    }
  } else if (type == "Output") {
    for (int i = 1; i <= p.n; i++) o[out(i)] = port(ins, in(i));
  } else if (type == "Join") {
    std::vector<const Stream*> ss;
    for (int i = 1; i <= p.n; i++) ss.push_back(&port(ins, in(i)));
    for (int i = 1; i <= p.n; i++) o[out(i)] = {};
    for (auto& [t, v] : tuples(ss))
      for (int i = 1; i <= p.n; i++) o[out(i)].push_back({t, v[i - 1]});
  } else if (type == "Linear") {
    std::vector<const Stream*> ss;
    for (size_t i = 1; i <= p.coeff.size(); i++) ss.push_back(&port(ins, in(i)));
    Stream r;
    for (auto& [t, v] : tuples(ss)) {
      double y = 0;
      for (size_t i = 0; i < v.size(); i++) y += p.coeff[i] * v[i];
      r.push_back({t, y});
    }
    o["o1"] = r;
  } else if (type == "Plus")
    binary([](double a, double b) { return O(a + b); });
  else if (type == "Minus")
    binary([](double a, double b) { return O(a - b); });
  else if (type == "Multiplication")
    binary([](double a, double b) { return O(a * b); });
  else if (type == "Division")
    binary([](double a, double b) { return b == 0 ? O() : O(a / b); });
  else if (type == "And")
    binary([](double a, double b) { return O(a >= 0.5 && b >= 0.5 ? 1 : 0); });
  else if (type == "Or")
    binary([](double a, double b) { return O(a >= 0.5 || b >= 0.5 ? 1 : 0); });
  else if (type == "GreaterThanStream")
    binary([](double a, double b) { return a > b ? O(a) : O(); });
  else if (type == "LessThanStream")
    binary([](double a, double b) { return a < b ? O(a) : O(); });
  else if (type == "Add")
    each([&](double v) { return v + p.value; });
  else if (type == "Scale")
    each([&](double v) { return v * p.value; });
  else if (type == "Power")
    each([&](double v) { return std::pow(v, p.value); });
  else if (type == "Constant")
    each([&](double) { return p.value; });
  else if (type == "Identity")
    each([&](double v) { return v; });
  else if (type == "GreaterThan")
    keep([&](double v) { return v > p.value; });
  else if (type == "LessThan")
    keep([&](double v) { return v < p.value; });
  else if (type == "EqualTo")
    keep([&](double v) { return v == p.value; });
  else if (type == "Count") {
    double k = 0;
    each([&](double) { return ++k; });
  } else if (type == "CumulativeSum") {
    double k = 0;
    each([&](double v) { return k += v; });
  } else if (type == "MovingAverage") {
    size_t n = p.n;
    window(n, [&](size_t i) {
      double s = 0;
      for (size_t k = 0; k < n; k++) s += x[i - k].v;
      return s / (double)n;
    });
  } else if (type == "StandardDeviation") {
    size_t n = p.n;
    window(n, [&](size_t i) {
      double s = 0, q = 0;
      for (size_t k = 0; k < n; k++) s += x[i - k].v;
      double mean = s / (double)n;
      for (size_t k = 0; k < n; k++) q += (x[i - k].v - mean) * (x[i - k].v - mean);
      return std::sqrt(q / (double)(n - 1));
    });
  } else if (type == "FiniteImpulseResponse") {
    window(p.coeff.size(), [&](size_t i) {
      double s = 0;
      for (size_t k = 0; k < p.coeff.size(); k++) s += p.coeff[k] * x[i - k].v;
      return s;
    });
  } else if (type == "Difference") {
    Stream r;
    for (size_t i = 1; i < x.size(); i++) r.push_back({p.oldest ? x[i].t : x[i - 1].t, x[i].v - x[i - 1].v});
    o["o1"] = r;
  } else if (type == "PeakDetector") {
    Stream r;
    size_t n = p.n;
    for (size_t i = 0; i + n <= x.size(); i++) {
      const Msg& c = x[i + n / 2];
      bool max = true;
      for (size_t k = 0; k < n; k++)
        if (x[i + k].v > c.v) max = false;
      if (max) r.push_back(c);
    }
    o["o1"] = r;
  } else if (type == "AutoRegressive") {
    Stream y;
    for (size_t i = 0; i < x.size(); i++) {
      double v = x[i].v;
      for (size_t k = 1; k <= p.coeff.size() && k <= i; k++) v += p.coeff[k - 1] * y[i - k].v;
      y.push_back({x[i].t, v});
    }
    o["o1"] = y;
  } else if (type == "TimeShift") {
    Stream r;
    for (auto& m : x) {
      int64_t t = m.t + p.n * p.times;
      r.push_back({t < 0 ? 0 : t, m.v});
    }
    o["o1"] = r;
  } else if (type == "Function") {
    each([&](double v) { return function_value(p, v); });
  } else if (type == "ConstantResampler") {
    Stream r;
    if (!x.empty())
      for (int64_t g = x[0].t + p.n; g <= x.back().t; g += p.n) r.push_back({g, at_or_before(x, g)->v});
    o["o1"] = r;
  } else if (type == "CosineResampler") {
    Stream r;
    if (x.size() >= 2) {
      size_t k = 0;  // interval [k, k+1] with x[k].t < g <= x[k+1].t
      for (int64_t g = x[0].t + p.n; g <= x.back().t; g += p.n) {
        while (x[k + 1].t < g) k++;
        double mu = (double)(g - x[k].t) / (double)(x[k + 1].t - x[k].t);
        double w = (1 - std::cos(mu * M_PI)) / 2;
        r.push_back({g, x[k].v * (1 - w) + x[k + 1].v * w});
      }
    }
    o["o1"] = r;
  } else if (type == "HermiteResampler") {
    Stream r;
    if (x.size() >= 4) {
      // least squares line through the first four messages, one mean gap before the first
      double mt = 0, mv = 0, sxy = 0, sxx = 0;
      for (int i = 0; i < 4; i++) mt += (double)(x[i].t - x[0].t) / 4, mv += x[i].v / 4;
      for (int i = 0; i < 4; i++) {
        double d = (double)(x[i].t - x[0].t) - mt;
        sxy += d * (x[i].v - mv);
        sxx += d * d;
      }
      double gap = (double)(x[3].t - x[0].t) / 3;
      if (p.oldest) gap = std::floor(gap);  // both readings of "one mean gap" are accepted, see p.oldest
      double left = mv + sxy / sxx * (-gap - mt);
      size_t k = 0;
      for (int64_t g = x[0].t + p.n; g <= x[x.size() - 2].t; g += p.n) {
        while (x[k + 1].t < g) k++;
        double mu = (double)(g - x[k].t) / (double)(x[k + 1].t - x[k].t);
        double y0 = k == 0 ? left : x[k - 1].v, y1 = x[k].v, y2 = x[k + 1].v, y3 = x[k + 2].v;
        r.push_back({g, hermite_mix(y1, y2, (y2 - y0) / 2, (y3 - y1) / 2, mu)});
      }
    }
    o["o1"] = r;
  } else if (type == "RelativeStrengthIndex") {
    Stream r;
    size_t n = p.n;
    double G = 0, L = 0;
    for (size_t i = 1; i < x.size(); i++) {
      double d = x[i].v - x[i - 1].v, g = d > 0 ? d : 0, l = d < 0 ? -d : 0;
      if (i <= n) {
        G += g / (double)n;
        L += l / (double)n;
      } else {
        G = (G * (double)(n - 1) + g) / (double)n;
        L = (L * (double)(n - 1) + l) / (double)n;
      }
      if (i >= n) r.push_back({x[i].t, L > 0 ? 100.0 - 100.0 / (1.0 + G / L) : 100.0});
    }
    o["o1"] = r;
  } else if (type == "Variable") {
    Stream r;
    for (auto& q : port(ins, "c1")) {
      bool decided = false;
      for (auto& m : x)
        if (m.t >= q.t) decided = true;
      if (!decided) break;
      auto* m = at_or_before(x, q.t);
      r.push_back({q.t, m ? m->v : p.value});
    }
    o["o1"] = r;
  } else if (type == "Demultiplexer") {
    for (int i = 1; i <= p.n; i++) o[out(i)] = {};
    for (auto& m : x) {
      std::vector<double> c;
      for (int i = 1; i <= p.n; i++) {
        auto* k = exactly(port(ins, ctl(i)), m.t);
        if (k) {
          if (k->v != 0 && k->v != 1) throw Undefined{};
          c.push_back(k->v);
        } else if (!port(ins, ctl(i)).empty() && port(ins, ctl(i)).back().t > m.t)
          throw Undefined{};  // the control stream skipped this message
      }
      if ((int)c.size() < p.n) break;
      for (int i = 1; i <= p.n; i++)
        if (c[i - 1] == 1) o[out(i)].push_back(m);
    }
  } else
    throw std::runtime_error("ref: unknown operator " + type);
  return o;
}

}  // namespace ref
