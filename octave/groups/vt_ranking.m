function [labels, scores, tied] = vt_ranking ()
% random labels and scores; tied: whether scores repeat
  n = vt_int(1, vt_pick(3, 12, 12, 60, 60, 60, 1500)) ;
  labels = ones(1, n) ;
  q = vt_pick(.5, .5, .1, .9, 0, 1) ;
  labels(rand(1,n) < q) = -1 ;
  if rand < .3, labels(rand(1,n) < .2) = 0 ; end
  if rand < .2, labels = labels * 3 ; end
  scores = randn(1, n) ;
  if rand < .3, scores = round(scores * 2) / 2 ; end
  if rand < .2, scores = scores - 100 ; end
  if rand < .4, scores(rand(1,n) < vt_pick(.2, .6, 1)) = -inf ; end
  if rand < .1, scores(vt_int(1,n)) = inf ; end
  if rand < .1, labels = single(labels) ; end
  if rand < .1, labels = labels' ; scores = scores' ; end
  u = scores(scores > -inf) ;
  tied = numel(unique(u)) < numel(u) ;
end
