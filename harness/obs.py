"""What the harness observes of real objects, in the specification's terms."""

from gen import act_json, norm


def plan_of(sol):
    return [route_plan(r) for r in sol.routes()]


def route_plan(r):
    acts = [act_json(a) for a in list(r)[1:-1]]
    return dict(v=r.vehicle_type(), acts=acts)


def route(r):
    sched = [
        dict(
            **act_json(a),
            trip=a.trip,
            start=norm(a.start_time),
            end=norm(a.end_time),
            dur=norm(a.duration),
            wait=norm(a.wait_duration),
            tw=norm(a.time_warp),
        )
        for a in r.schedule()
    ]
    return dict(
        sched=sched,
        duration=norm(r.duration()),
        timeWarp=norm(r.time_warp()),
        hasTw=r.has_time_warp(),
        overtime=norm(r.overtime()),
        start=norm(r.start_time()),
        end=norm(r.end_time()),
        slack=norm(r.slack()),
        release=norm(r.release_time()),
        travel=norm(r.travel_duration()),
        service=norm(r.service_duration()),
        wait=norm(r.wait_duration()),
        delivery=[norm(x) for x in r.delivery()],
        pickup=[norm(x) for x in r.pickup()],
        excessLoad=[norm(x) for x in r.excess_load()],
        hasEl=r.has_excess_load(),
        distance=norm(r.distance()),
        distCost=norm(r.distance_cost()),
        excessDist=norm(r.excess_distance()),
        hasEd=r.has_excess_distance(),
        durCost=norm(r.duration_cost()),
        fixed=norm(r.fixed_vehicle_cost()),
        prizes=norm(r.prizes()),
        nCli=r.num_clients(),
        nShip=r.num_shipments(),
        nTrips=r.num_trips(),
        nDep=r.num_depots(),
        len=len(r),
        v=r.vehicle_type(),
        s=r.start_depot(),
        e=r.end_depot(),
        feas=r.is_feasible(),
    )


def solution(s):
    return dict(
        distance=norm(s.distance()),
        distCost=norm(s.distance_cost()),
        duration=norm(s.duration()),
        overtime=norm(s.overtime()),
        durCost=norm(s.duration_cost()),
        timeWarp=norm(s.time_warp()),
        excessDist=norm(s.excess_distance()),
        excessLoad=[norm(x) for x in s.excess_load()],
        hasTw=s.has_time_warp(),
        hasEd=s.has_excess_distance(),
        hasEl=s.has_excess_load(),
        fixed=norm(s.fixed_vehicle_cost()),
        prizes=norm(s.prizes()),
        uncollected=norm(s.uncollected_prizes()),
        nRoutes=s.num_routes(),
        nTrips=s.num_trips(),
        nCli=s.num_clients(),
        nShip=s.num_shipments(),
        missCli=s.num_missing_clients(),
        missGrp=s.num_missing_groups(),
        missShip=s.num_missing_shipments(),
        complete=s.is_complete(),
        feas=s.is_feasible(),
        unplanned=[act_json(a) for a in s.unplanned()],
        routes=plan_of(s),
    )
