#define ARCHON_FONT_HAVE_FREETYPE 1
