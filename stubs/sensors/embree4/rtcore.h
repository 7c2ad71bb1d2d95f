// Stand-in for Embree: triangle meshes in a scene, nearest hit of a ray by trying every triangle.
#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
#include <map>
#include <memory>
#include <vector>
#define RTC_INVALID_GEOMETRY_ID ((unsigned int)-1)
enum RTCGeometryType { RTC_GEOMETRY_TYPE_TRIANGLE };
enum RTCBufferType { RTC_BUFFER_TYPE_VERTEX, RTC_BUFFER_TYPE_INDEX };
enum RTCFormat { RTC_FORMAT_FLOAT3, RTC_FORMAT_UINT3 };
struct RTCStubGeometry
{
  std::vector<char> vertices, triangles;
  std::size_t vertex_stride = 0, triangle_stride = 0, vertex_count = 0, triangle_count = 0;
  bool committed = false;
  unsigned mask = 1;
  int refs = 1;
};
struct RTCStubScene { std::map<unsigned, RTCStubGeometry *> all, committed; unsigned next_free() const { unsigned i = 0; while (all.count(i)) ++i; return i; } };
struct RTCStubDevice {};
using RTCDevice = RTCStubDevice *;
using RTCScene = RTCStubScene *;
using RTCGeometry = RTCStubGeometry *;
struct RTCRay { float org_x, org_y, org_z, tnear, dir_x, dir_y, dir_z, time, tfar; unsigned mask, id, flags; };
struct RTCHit { float Ng_x, Ng_y, Ng_z, u, v; unsigned primID, geomID, instID[1]; };
struct RTCRayHit { RTCRay ray; RTCHit hit; };
inline RTCDevice rtcNewDevice(const char *) { return new RTCStubDevice; }
inline void rtcReleaseDevice(RTCDevice d) { delete d; }
inline RTCScene rtcNewScene(RTCDevice) { return new RTCStubScene; }
inline void rtcReleaseGeometry(RTCGeometry g) { if (not --g->refs) delete g; }
inline void rtcReleaseScene(RTCScene s) { for (auto & [i, g] : s->all) rtcReleaseGeometry(g); delete s; }
inline RTCGeometry rtcNewGeometry(RTCDevice, RTCGeometryType) { return new RTCStubGeometry; }
inline void * rtcSetNewGeometryBuffer(RTCGeometry g, RTCBufferType t, unsigned, RTCFormat, std::size_t stride, std::size_t count)
{
  auto & b = t == RTC_BUFFER_TYPE_VERTEX ? g->vertices : g->triangles;
  b.assign(stride * count + 16, 0);
  (t == RTC_BUFFER_TYPE_VERTEX ? g->vertex_stride : g->triangle_stride) = stride;
  (t == RTC_BUFFER_TYPE_VERTEX ? g->vertex_count : g->triangle_count) = count;
  return b.data();
}
inline void rtcSetGeometryMask(RTCGeometry g, unsigned m) { g->mask = m; }
inline void rtcCommitGeometry(RTCGeometry g) { g->committed = true; }
inline unsigned rtcAttachGeometry(RTCScene s, RTCGeometry g) { const auto i = s->next_free(); s->all[i] = g; ++g->refs; return i; }
inline void rtcDetachGeometry(RTCScene s, unsigned i) { if (auto f = s->all.find(i); f != s->all.end()) { s->committed.erase(i); rtcReleaseGeometry(f->second); s->all.erase(f); } }
inline void rtcCommitScene(RTCScene s) { s->committed = s->all; }
inline void rtcIntersect1(RTCScene s, RTCRayHit * h)
{
  for (auto & [id, g] : s->committed) {
    if (not g->committed or not(g->mask & h->ray.mask)) continue;
    for (std::size_t i = 0; i < g->triangle_count; ++i) {
      const auto * t = reinterpret_cast<const unsigned *>(g->triangles.data() + i * g->triangle_stride);
      double p[3][3];
      for (int k = 0; k < 3; ++k) { const auto * v = reinterpret_cast<const float *>(g->vertices.data() + t[k] * g->vertex_stride); for (int j = 0; j < 3; ++j) p[k][j] = v[j]; }
      const double o[3] = {h->ray.org_x, h->ray.org_y, h->ray.org_z}, d[3] = {h->ray.dir_x, h->ray.dir_y, h->ray.dir_z};
      double a[3], b[3], q[3], c[3], w[3];
      for (int j = 0; j < 3; ++j) a[j] = p[1][j] - p[0][j], b[j] = p[2][j] - p[0][j], w[j] = o[j] - p[0][j];
      auto cross = [](const double * x, const double * y, double * z) { z[0] = x[1] * y[2] - x[2] * y[1], z[1] = x[2] * y[0] - x[0] * y[2], z[2] = x[0] * y[1] - x[1] * y[0]; };
      auto dot = [](const double * x, const double * y) { return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]; };
      cross(d, b, q);
      const double det = dot(a, q);
      if (std::fabs(det) < 1e-12) continue;
      const double u = dot(w, q) / det;
      cross(w, a, c);
      const double v = dot(d, c) / det, r = dot(b, c) / det;
      if (u < 0 or v < 0 or u + v > 1 or r < h->ray.tnear or r > h->ray.tfar) continue;
      h->ray.tfar = r, h->hit.geomID = id, h->hit.primID = i;
    }
  }
}
