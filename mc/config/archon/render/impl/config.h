#define ARCHON_RENDER_HAVE_OPENGL 1
