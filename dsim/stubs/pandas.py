"""Import-only stand-in: traittypes imports pandas for trait kinds that
crowddynamics never uses."""


class DataFrame(object):
    pass


class Series(object):
    pass
