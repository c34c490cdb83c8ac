// Round trip of triangle mesh geometry.
#include "ser.h"
#include "rigidbody3d/Geometry/RigidBodyTriangleMesh.h"
#include "scisim/Utilities.h"
// BOUND .* 1 2
static void fill(RigidBodyTriangleMesh& m)
{
  const long nv = vc_size("nverts", 0, 5), nf = vc_size("nfaces", 0, 5), ns = vc_size("nsamples", 0, 5), nh = vc_size("nhull", 0, 5), nd = vc_size("nsdf", 0, 9), nn = vc_size("name", 0, 6);
  for (long i = 0; i < nn; ++i) m.m_input_file_name.push_back(char(vc_char("ch")));
  m.m_verts.resize(3, nv); vc_fill("verts", m.m_verts.data(), 3 * nv);
  m.m_faces.resize(3, nf); vc_fill_u32("faces", m.m_faces.data(), 3 * nf, 0, 1000);
  m.m_volume = vc_pos("volume"); m.m_I_on_rho = vc_vec3("I"); m.m_center_of_mass = vc_vec3("cm"); vc_fill("R", m.m_R.data(), 9);
  m.m_samples.resize(3, ns); vc_fill("samples", m.m_samples.data(), 3 * ns);
  m.m_convex_hull_samples.resize(3, nh); vc_fill("hull", m.m_convex_hull_samples.data(), 3 * nh);
  m.m_cell_delta = vc_vec3("delta"); for (int k = 0; k < 3; ++k) m.m_grid_dimensions(k) = unsigned(vc_int("dims", 0, 1000));
  m.m_grid_origin = vc_vec3("origin"); m.m_grid_end = vc_vec3("end"); m.m_signed_distance = vc_vecx("sdf", nd);
}
static void same(const RigidBodyTriangleMesh& a, const RigidBodyTriangleMesh& b)
{
  vc_same(a.inputFileName(), b.inputFileName(), VC_SAME); vc_smd(a.vertices(), b.vertices()); vc_smd(a.faces(), b.faces()); vc_smd(a.convexHullVertices(), b.convexHullVertices()); vc_smd(a.samples(), b.samples()); vc_smd(a.R(), b.R());
  vc_sm(a.volume(), b.volume()); vc_smd(a.m_I_on_rho, b.m_I_on_rho); vc_smd(a.m_center_of_mass, b.m_center_of_mass); vc_smd(a.m_cell_delta, b.m_cell_delta); vc_smd(a.m_grid_dimensions, b.m_grid_dimensions);
  vc_smd(a.m_grid_origin, b.m_grid_origin); vc_smd(a.m_signed_distance, b.m_signed_distance); vc_smd(a.m_grid_end, b.m_grid_end);
}
VC(mesh)
{
  RigidBodyTriangleMesh a; fill(a);
  a.serialize(vc_os(1)); vc_assert(Utilities::deserialize<RigidBodyGeometryType>(vc_is(1)) == RigidBodyGeometryType::TRIANGLE_MESH, "geometry type tag");
  const RigidBodyTriangleMesh b{vc_is(1)}; vc_stream_done(1); same(a, b); vc_cover("done");
}
VC(meshClone)
{
  RigidBodyTriangleMesh a; fill(a);
  const std::unique_ptr<RigidBodyGeometry> b = a.clone(); vc_assert(b->getType() == RigidBodyGeometryType::TRIANGLE_MESH, VC_SAME); same(a, static_cast<const RigidBodyTriangleMesh&>(*b)); vc_cover("done");
}
