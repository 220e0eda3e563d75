from props._net import drive


def run_case(ctx, i):
    drive(ctx, max_agents=ctx.rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 15, 25, 40]),
          caps=ctx.rng.random() < 0.3, weights={'data': 0.05, 'toggle': 0.05})
