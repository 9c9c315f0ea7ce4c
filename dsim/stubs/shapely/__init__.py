"""Small stand-in for shapely 1.x: coordinates, collections, hulls and the
GeoJSON mapping.  No overlay algebra: unions collect, differences and buffers
are approximations (documented in DESIGN.md)."""
__version__ = '1.6.stub'
