// Tracks managers, built by a list of operations.
#include "driver.h"

#include <foundation/union_find.h>
#include <map/tracks_manager.h>
#include <sfm/tracks_helpers.h>
#include <sstream>

using map::Observation;
using map::TracksManager;

static std::string id(char kind, int i) { return std::string(1, kind) + static_cast<char>('0' + i); }
static std::string shot(In& in) { return id('s', in.integer()); }
static std::string track(In& in) { return id('t', in.integer()); }
static int number(const std::string& s) { return s[1] - '0'; }

static TracksManager build(In& in) {
  TracksManager m;
  while (const int op = in.integer()) {
    const auto s = shot(in);
    const auto t = track(in);
    if (op == 1) {
      Observation o;
      o.point << in.next(), in.next();
      o.scale = in.next();
      for (int i = 0; i < 3; ++i) o.color[i] = in.integer();
      o.feature_id = in.integer();
      o.segmentation_id = in.integer();
      o.instance_id = in.integer();
      m.AddObservation(s, t, o);
    } else {
      m.RemoveObservation(s, t);
    }
  }
  return m;
}
static void put(Out& out, const Observation& o) {
  out.matrix(o.point);
  out.put(o.scale);
  out.matrix(o.color);
  out.put(o.feature_id);
  out.put(o.segmentation_id);
  out.put(o.instance_id);
}
static int track_number(const std::string& s, bool merged) {
  int v = 0;
  for (size_t i = merged ? 0 : 1; i < s.size(); ++i) v = 10 * v + (s[i] - '0');
  return v;
}
static void dump(Out& out, const TracksManager& m, bool merged = false) {
  const auto shots = m.GetShotIds();
  const auto tracks = m.GetTrackIds();
  out.put(m.NumShots());
  out.put(shots.size());
  for (const auto& s : shots) {
    out.put(number(s));
    out.put(m.HasShotObservations(s));
    const auto& o = m.GetShotObservations(s);
    out.put(o.size());
    for (const auto& x : o) {
      out.put(track_number(x.first, merged));
      put(out, x.second);
      put(out, m.GetObservation(s, x.first));
    }
  }
  out.put(m.NumTracks());
  out.put(tracks.size());
  for (const auto& t : tracks) {
    out.put(track_number(t, merged));
    const auto& o = m.GetTrackObservations(t);
    out.put(o.size());
    for (const auto& x : o) {
      out.put(number(x.first));
      put(out, x.second);
    }
  }
}

DRIVER(state) { dump(out, build(in)); }

DRIVER(subset) {
  const auto m = build(in);
  std::vector<std::string> tracks(in.integer()), shots(in.integer());
  for (auto& t : tracks) t = track(in);
  for (auto& s : shots) s = shot(in);
  dump(out, m.ConstructSubTracksManager(tracks, shots));
}

DRIVER(common) {
  const auto m = build(in);
  const auto a = shot(in), b = shot(in);
  const auto r = m.GetAllCommonObservations(a, b);
  out.put(r.size());
  for (const auto& x : r) {
    out.put(number(std::get<0>(x)));
    put(out, std::get<1>(x));
    put(out, std::get<2>(x));
  }
}

DRIVER(connectivity) {
  const auto m = build(in);
  std::vector<std::string> tracks(in.integer()), shots(in.integer());
  for (auto& t : tracks) t = track(in);
  for (auto& s : shots) s = shot(in);
  const auto r = m.GetAllPairsConnectivity(shots, tracks);
  out.put(r.size());
  for (const auto& x : r) {
    out.put(number(x.first.first));
    out.put(number(x.first.second));
    out.put(x.second);
  }
}

DRIVER(merge) {
  std::vector<TracksManager> all;
  const int n = in.integer();
  for (int i = 0; i < n; ++i) all.push_back(build(in));
  std::vector<const TracksManager*> p;
  for (const auto& m : all) p.push_back(&m);
  dump(out, TracksManager::MergeTracksManager(p), true);
}

// Who sees what after connections are added and removed, and the counts.
DRIVER(helpers) {
  auto m = build(in);
  while (const int op = in.integer()) {
    const auto s = shot(in);
    std::vector<std::string> t(in.integer());
    for (auto& x : t) x = track(in);
    if (op == 1) sfm::tracks_helpers::AddConnections(m, s, t);
    if (op == 2) sfm::tracks_helpers::RemoveConnections(m, s, t);
  }
  std::vector<std::string> shots(in.integer()), tracks(in.integer());
  for (auto& s : shots) s = shot(in);
  for (auto& t : tracks) t = track(in);
  const auto c = sfm::tracks_helpers::CountTracksPerShot(m, shots, tracks);
  out.put(c.size());
  for (const auto& x : c) {
    out.put(number(x.first));
    out.put(x.second);
  }
  for (const auto& s : m.GetShotIds())
    for (const auto& x : m.GetShotObservations(s)) {
      out.put(number(s));
      out.put(track_number(x.first, false));
      out.put(m.GetTrackObservations(x.first).count(s));
    }
}

DRIVER(lookup) {
  const auto m = build(in);
  const int kind = in.integer();
  const auto s = shot(in);
  const auto t = track(in);
  if (kind == 0) put(out, m.GetObservation(s, t));
  if (kind == 1) out.put(m.GetShotObservations(s).size());
  if (kind == 2) out.put(m.GetTrackObservations(t).size());
  if (kind == 3) out.put(m.GetAllCommonObservations(s, shot(in)).size());
  if (kind == 4) out.put(m.HasShotObservations(s));
}

DRIVER(roundtrip) { dump(out, TracksManager::InstanciateFromString(build(in).AsString())); }

// A file of a version: every line has a number of values.
DRIVER(parse) {
  const int version = in.integer(), lines = in.integer();
  std::stringstream s;
  if (version) s << "OPENSFM_TRACKS_VERSION" << "_v" << version << '\n';
  for (int i = 0; i < lines; ++i) {
    s << shot(in) << '\t' << track(in);
    const int n = in.integer();
    for (int j = 0; j < n; ++j) {
      s << '\t';
      const bool whole = in.integer();
      if (whole)
        s << in.integer();
      else
        s << in.next();
    }
    s << '\n';
  }
  dump(out, TracksManager::InstanciateFromString(s.str()));
}

DRIVER(unite) {
  const int n = in.integer();
  std::vector<std::unique_ptr<UnionFindElement<int>>> e;
  for (int i = 0; i < n; ++i) e.emplace_back(new UnionFindElement<int>(i));
  const int m = in.integer();
  for (int i = 0; i < m; ++i) {
    const int a = in.integer(), b = in.integer();
    Union(e[a].get(), e[b].get());
  }
  const auto c = GetUnionFindClusters(&e);
  out.put(c.size());
  for (const auto& x : c) {
    out.put(x.size());
    for (const auto& y : x) out.put(y->data);
  }
}
