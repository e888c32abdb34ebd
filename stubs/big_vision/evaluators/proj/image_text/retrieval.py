"""Stand-in for the retrieval evaluator."""
from big_vision.evaluators.proj.image_text import sim


class Evaluator:

  def __init__(self, predict_fn, devices, *, dim, seed):
    self.args = (predict_fn, devices)
    self.dim, self.seed = dim, seed

  def evaluate(self, variables):
    zi, zt = sim.embed(*self.args, variables, self.dim, self.seed,
                       f'retrieval/{self.seed}')
    return {'txt2img': {'Recall@1': float(zt.sum()),
                        'Recall@5': float(abs(zt).sum())},
            'img2txt': {'Recall@1': float(zi.sum())}}
