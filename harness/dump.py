"""
Everything that data objects report, as JSON: the specification's Norm*().
Matrix entries equal to MAX_VALUE become INF, larger ones 2 * INF.
"""

from gen import BIG, INF, norm


def opt(x):
    return -1 if x is None else int(x)


def location(x):
    return dict(x=repr(float(x.x)), y=repr(float(x.y)), name=x.name)


def step(x):
    return dict(
        loc=norm(x.location),
        early=norm(x.tw_early),
        late=norm(x.tw_late),
        serv=norm(x.service_duration),
    )


def depot(x):
    return dict(**step(x), name=x.name)


def client(x):
    return dict(
        loc=norm(x.location),
        dlv=[norm(v) for v in x.delivery],
        pck=[norm(v) for v in x.pickup],
        serv=norm(x.service_duration),
        early=norm(x.tw_early),
        late=norm(x.tw_late),
        rel=norm(x.release_time),
        prize=norm(x.prize),
        req=x.required,
        grp=opt(x.group),
        name=x.name,
    )


def group(x):
    return dict(
        cl=[norm(c) for c in x.clients],
        req=x.required,
        name=x.name,
    )


def group_all(x):
    """Also what iterating and len() say."""
    return dict(
        **group(x),
        it=[norm(c) for c in x],
        len=len(x),
        mx=x.mutually_exclusive,
    )


def shipment(x):
    return dict(
        p=step(x.pickup),
        d=step(x.delivery),
        amt=[norm(v) for v in x.amount],
        prize=norm(x.prize),
        req=x.required,
        name=x.name,
    )


def vehicle(x):
    return dict(
        n=norm(x.num_available),
        cap=[norm(v) for v in x.capacity],
        s=norm(x.start_depot),
        e=norm(x.end_depot),
        fixed=norm(x.fixed_cost),
        early=norm(x.tw_early),
        late=norm(x.tw_late),
        shift=norm(x.shift_duration),
        maxdist=norm(x.max_distance),
        ud=norm(x.unit_distance_cost),
        ut=norm(x.unit_duration_cost),
        prof=norm(x.profile),
        slate=norm(x.start_late),
        init=[norm(v) for v in x.initial_load],
        rld=[norm(v) for v in x.reload_depots],
        maxrl=norm(x.max_reloads),
        maxot=norm(x.max_overtime),
        uo=norm(x.unit_overtime_cost),
        name=x.name,
        maxdur=norm(x.max_duration),
        trips=norm(x.max_trips),
    )


def entry(x):
    x = int(x)
    if x == 1 << 44:
        return INF
    if x > BIG:
        return 2 * INF
    if x < -BIG:
        return -INF
    return x


def matrix(m):
    return [[entry(x) for x in row] for row in m.tolist()]


def data(x):
    lists = dict(
        locs=[location(y) for y in x.locations()],
        depots=[depot(y) for y in x.depots()],
        clients=[client(y) for y in x.clients()],
        groups=[group(y) for y in x.groups()],
        ships=[shipment(y) for y in x.shipments()],
        vehs=[vehicle(y) for y in x.vehicle_types()],
        dist=[matrix(m) for m in x.distance_matrices()],
        dur=[matrix(m) for m in x.duration_matrices()],
    )
    singles = dict(
        locs=[location(x.location(i)) for i in range(x.num_locations)],
        depots=[depot(x.depot(i)) for i in range(x.num_depots)],
        clients=[client(x.client(i)) for i in range(x.num_clients)],
        groups=[group(x.group(i)) for i in range(x.num_groups)],
        ships=[shipment(x.shipment(i)) for i in range(x.num_shipments)],
        vehs=[vehicle(x.vehicle_type(i)) for i in range(x.num_vehicle_types)],
        dist=[matrix(x.distance_matrix(i)) for i in range(x.num_profiles)],
        dur=[matrix(x.duration_matrix(i)) for i in range(x.num_profiles)],
    )
    counts = dict(
        clients=x.num_clients,
        groups=x.num_groups,
        ships=x.num_shipments,
        depots=x.num_depots,
        locs=x.num_locations,
        vehs=x.num_vehicle_types,
        vehicles=x.num_vehicles,
        profiles=x.num_profiles,
        dims=x.num_load_dimensions,
        tw=bool(x.has_time_windows()),
    )
    return dict(lists=lists, singles=singles, counts=counts)
