"""Reference points handed out by the pyvista stand-in; set by the harness."""
state = {"points": None}


def points_of(radius, theta_resolution, z_resolution):
    f = state["points"]
    if f is None:
        raise RuntimeError("no reference points set")
    return f(radius, theta_resolution, z_resolution)
