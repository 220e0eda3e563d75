from props._net import drive


def run_case(ctx, i):
    drive(ctx, ctx.rng.choice(['tight', 'tight', 'tight', 'mix', 'res', 'info']), blocking='RS')
