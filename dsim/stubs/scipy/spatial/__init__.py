from scipy.spatial.qhull import Delaunay, Voronoi, QhullError  # noqa
