from props._net import drive


def run_case(ctx, i):
    drive(ctx, 'res', agents=ctx.rng.choice([['resource'], ['resource', 'resource', 'agent'],
                                             ['resource', 'greedy']]),
          dense=ctx.rng.choice([None, 0.6]), caps=ctx.rng.random() < 0.3)
